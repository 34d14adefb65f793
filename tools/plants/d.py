exec(open("/verif/tools/plants/b.py").read().split("\nPLANTS = [")[0])

J = '{"webrpc":"v1","name":"a","version":"v1",'

PLANTS = [
dict(id="status-zero-is-unset", property="C04", pkg="schema/ridl", also=["C09"],
  needs="an error with the written status 0",
  breaks="status 400 is taken instead of rejecting the schema",
  edits=[("schema/ridl/ridl.go", "		if line.httpStatus != nil {\n", "		if line.httpStatus != nil && strings.Trim(line.httpStatus.String(), \"0\") != \"\" {\n")],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%serror 1 Aa \\"a\\" HTTP 0\\n"})
	if err == nil {
		t.Fatal(s.Errors[0])
	}
''' % H)),
dict(id="equal-comment-lines-once", property="C05", pkg="schema/ridl",
  needs="two equal lines in a row in a doc comment",
  breaks="only one of them is kept",
  edits=[("schema/ridl/parser.go", '''			if !strings.HasPrefix(comment, "!") {
				c = append(c, comment)
			}
			delete(comments, currentLine)
''', '''			if !strings.HasPrefix(comment, "!") && (len(c) == 0 || c[len(c)-1] != comment) {
				c = append(c, comment)
			}
			delete(comments, currentLine)
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%s# a\\n# ---\\n# ---\\n# b\\nstruct Aa\\n  - x: string\\n"})
	if err != nil || len(s.Types[0].Comments) != 4 {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="methods-have-to-be-indented", property="C06", pkg="schema/ridl",
  needs="a method whose line isn't indented, after another method",
  breaks="the text is rejected",
  edits=[("schema/ridl/service_parser.go", '''		case tokenDash:
			state := parseStateServiceMethodDefinition(s)
''', '''		case tokenDash:
			if tok.col == 1 && len(s.methods) > 0 && len(s.methodAnnotations) == 0 {
				p.emit(s)
				return parserDefaultState // not a part of the service
			}
			state := parseStateServiceMethodDefinition(s)
''')],
  demo=ridl('''	_, err := parse(t, map[string]string{"main.ridl": "%sservice Aa\\n- X()\\n- Y()\\n"})
	if err != nil {
		t.Fatal(err)
	}
''' % H)),
dict(id="json-one-letter-types", property="C10", pkg="schema", also=["C11"],
  needs="a JSON schema that refers to a type with a name of one letter",
  breaks="the schema is rejected",
  edits=[("schema/var_type.go", "	if len(b) <= 2 {", "	if len(b) <= len(`\"T\"`) {")],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"A","fields":[{"name":"x","type":"A"}]}],"services":[]}`))
	if err != nil {
		t.Fatal(err)
	}
''' % J)),
dict(id="import-merges-by-name", property="C09", pkg="schema/ridl", also=["C13"],
  needs="two imported files that declare a struct of the same name",
  breaks="the second one is silently dropped, rather than rejected",
  edits=[("schema/ridl/ridl.go", "				if !slices.Contains(s.Types, imported.Types[i]) && isImportAllowed(imported.Types[i].Name, members) {", "				if s.GetTypeByName(imported.Types[i].Name) == nil && isImportAllowed(imported.Types[i].Name, members) {")],
  demo=ridl('''	_, err := parse(t, map[string]string{
		"main.ridl": "%simport a.ridl\\nimport b.ridl\\nstruct C\\n  - x: string\\n",
		"a.ridl": "%sstruct A\\n  - x: string\\n", "b.ridl": "%sstruct A\\n  - y: int\\n"})
	if err == nil {
		_, err = parse(t, map[string]string{
			"main.ridl": "%simport\\n  - a.ridl\\n  - b.ridl\\nstruct C\\n  - x: string\\n",
			"a.ridl": "%sstruct A\\n  - x: string\\n", "b.ridl": "%sstruct A\\n  - y: int\\n"})
	}
	if err == nil {
		t.Fatal("accepted")
	}
''' % (H, H, H, H, H, H))),
dict(id="caseless-letters-are-upper", property="C09", pkg="schema",
  needs="a type or error whose name begins with a digit or underscore",
  breaks="the schema is accepted",
  edits=[("schema/type.go", "	if !startsWithUpper(typName) {", "	if strings.ToUpper(typName[:1]) != typName[:1] {")],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"_a","fields":[]}],"services":[]}`))
	if err == nil {
		t.Fatal("accepted")
	}
''' % J)),
dict(id="two-errors-for-a-bad-status", property="C15", pkg="schema/ridl",
  needs="an error declaration with a status that isn't a number",
  breaks="the parser's goroutine is left waiting for ever",
  edits=[("schema/ridl/error_parser.go", '''			p.rewind(1)
			return p.stateError(fmt.Errorf("expecting HTTP '<status code>' to be a number but got '%s'", matches[1].val))
''', '''			p.rewind(1)
			p.stateError(fmt.Errorf("expecting HTTP '<status code>' to be a number but got '%s'", matches[1].val))
			return parserStateEOL // report what else is wrong
''')],
  demo=ridl('''	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		if _, err := parse(t, map[string]string{"main.ridl": "%serror 1 Aa \\"a\\" HTTP abc\\n"}); err == nil {
			t.Fatal("accepted")
		}
	}
	for i := 0; i < 50 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatal(n, before)
	}
''' % H, ["runtime", "time"])),
dict(id="enum-without-base-in-json", property="C16", pkg="schema",
  needs="a JSON schema with an enum without type that has members",
  breaks="panics",
  edits=[("schema/type.go", "		if !isValidVarType(fieldType.String(), validCoreTypes) {", "		if len(t.Fields) > 0 && !isValidVarType(fieldType.Expr, validCoreTypes) {")],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"enum","name":"E","fields":[{"name":"A","value":"1"}]}],"services":[]}`))
	if err == nil {
		t.Fatal("accepted")
	}
''' % J)),
dict(id="method-errors-fold-case", property="C17", pkg="schema/ridl", also=["C09"],
  needs="a method that lists an error in another letter case",
  breaks="the schema is accepted with a reference to an error that isn't there",
  edits=[("schema/service.go", "			if schemaError.Name == errorName {", "			if strings.EqualFold(schemaError.Name, errorName) {")],
  demo=ridl('''	_, err := parse(t, map[string]string{"main.ridl": "%serror 1 Aa \\"a\\"\\nservice S\\n  - X() errors AA\\n"})
	if err == nil {
		t.Fatal("accepted")
	}
''' % H)),
dict(id="shake-skips-shared-optional", property="C18", pkg="schema",
  needs="a struct used by an excluded service first and by an included one, with an optional field of a type used nowhere else",
  breaks="the type of the optional field is dropped",
  edits=[("schema/schema.go", '''			for _, f := range t.Fields {
				walkVarType(f.Type, mark)
			}
''', '''			for _, f := range t.Fields {
				if f.Optional && usedExcluded[t.Name] && !usedExcluded[f.Type.String()] {
					continue
				}
				walkVarType(f.Type, mark)
			}
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"S","fields":[{"name":"o","type":"O","optional":true}]},{"kind":"struct","name":"O","fields":[]}],"services":[
		{"name":"A","methods":[{"name":"X","inputs":[{"name":"s","type":"S"}]}]},{"name":"B","methods":[{"name":"X","inputs":[{"name":"s","type":"S"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.MethodTreeShake(s, []string{"B"}); len(s.Types) != 2 {
		t.Fatal(s.Types)
	}
''' % J)),
dict(id="service-names-trimmed", property="C19", pkg="schema",
  needs="a service name given with blanks around it",
  breaks="the service is selected",
  edits=[("schema/schema.go", "		serviceMap[srv] = struct{}{}\n", "		serviceMap[strings.TrimSpace(srv)] = struct{}{}\n")],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[],"services":[{"name":"A","methods":[{"name":"X"}]},{"name":"B","methods":[{"name":"X"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.MatchServices(s, []string{"A", " B"}); len(s.Services) != 1 {
		t.Fatal(s.Services)
	}
''' % J)),
dict(id="empty-services-dropped", property="C20", pkg="schema",
  needs="annotations that leave no method of the last service",
  breaks="the service is dropped",
  edits=[("schema/schema.go", '''			if !ignore {
				methods = append(methods, method)
			}
		}

		s.Services[i].Methods = methods
	}
''', '''			if !ignore {
				methods = append(methods, method)
			}
		}

		s.Services[i].Methods = methods
	}
	if n := len(s.Services); n > 1 && len(s.Services[n-1].Methods) == 0 {
		s.Services = s.Services[:n-1]
	}
'''), ("schema/schema.go", '''			ignore := false
''', '''			var ignore bool
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[],"services":[{"name":"A","methods":[{"name":"X"}]},{"name":"B","methods":[{"name":"X","annotations":{"a":{"annotationType":"a","value":""}}}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.IgnoreMethodsWithAnnotations(s, map[string]string{"a": ""}); len(s.Services) != 2 {
		t.Fatal(s.Services)
	}
''' % J)),
dict(id="bigint-of-recursive-list", property="C21", pkg="schema",
  needs="a struct whose bigint is behind a list of structs in which an earlier field refers back",
  breaks="the field isn't listed",
  edits=[("schema/helpers.go", '''		for _, f := range t.Fields {
			if f.Type == nil {
				continue
			}
			// direct scalar bigint
''', '''		for _, f := range t.Fields {
			if f.Type == nil {
				continue
			}
			if f.Type.Type == T_List && f.Type.List.Elem.Struct != nil && visited[f.Type.List.Elem.Struct.Name] {
				return false // a cycle
			}
			// a direct scalar bigint
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"A","fields":[{"name":"b","type":"B"}]},{"kind":"struct","name":"B","fields":[{"name":"bs","type":"[]B"},{"name":"n","type":"bigint"}]}],"services":[]}`))
	if err != nil {
		t.Fatal(err)
	}
	if m := schema.SchemaBigIntFieldsByType(s); len(m["A"]) != 1 {
		t.Fatal(m)
	}
''' % J)),
dict(id="basepath-cleaned", property="C22", pkg="schema",
  needs="a base path with a dot segment",
  breaks="the base path is changed",
  edits=[("schema/schema.go", '''		if !strings.HasSuffix(s.BasePath, "/") {
			s.BasePath += "/"
''', '''		if strings.Contains(s.BasePath, "/./") {
			s.BasePath = strings.ReplaceAll(s.BasePath, "/./", "/")
		}
		if !strings.HasSuffix(s.BasePath, "/") {
			s.BasePath = s.BasePath + "/"
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"basepath":"/a/./b","types":[],"services":[]}`))
	if err != nil || s.BasePath != "/a/./b/" {
		t.Fatal(err, s)
	}
''' % J)),
dict(id="leading-blank-lines-uncounted", property="C23", pkg="schema/ridl",
  needs="a syntax error in a file that begins with blank lines",
  breaks="the line number is too low",
  edits=[("schema/ridl/parser.go", "	tokens, comments, err := tokenize(src)\n", "	tokens, comments, err := tokenize([]byte(strings.TrimLeft(string(src), \"\\r\\n\")))\n")],
  demo=ridl('''	_, err := parse(t, map[string]string{"main.ridl": "\\n\\n%sfoo bar\\n"})
	if err == nil || !strings.Contains(err.Error(), "%d:") {
		t.Fatal(err)
	}
''' % (H, 2 + H.count("\\n") + 1), ["strings"])),
dict(id="struct-predicate-through-alias", property="C26", pkg="gen",
  needs="a field with the type of an alias of a struct",
  breaks="the alias is said to be a struct as well",
  edits=[("gen/funcmap_types.go", '''	case *schema.VarType:
		if t != nil {
			return t.Type == schema.T_Struct
		}
''', '''	case *schema.VarType:
		if t != nil {
			if t.Alias != nil && t.Alias.Type.Type != nil {
				return t.Alias.Type.Type.Type == schema.T_Struct
			}
			return t.Type == schema.T_Struct
		}
''')],
  demo=gen('''	got, err := render(t, `%s"types":[{"kind":"struct","name":"A","fields":[{"name":"b","type":"B"}]},{"kind":"alias","name":"B","type":"A"}],"services":[]}`, `{{ isStructType (index (index .Types 0).Fields 0).Type }}`, nil)
	if err != nil || got != "false" {
		t.Fatal(err, got)
	}
''' % J)),
dict(id="major-only-version", property="C27", pkg="gen",
  needs="a version without minor number against a minimum with one",
  breaks="the missing minor number counts as enough",
  edits=[("gen/funcmap_flow.go", "parseMajorMinorVersion(version)\n	if", "parseMajorMinorVersion(version + \".65535.0\")\n	if")],
  demo=gen('''	got, err := render(t, base, `{{ minVersion "v1" "v1.3" }}`, nil)
	if err != nil || got != "false" {
		t.Fatal(err, got)
	}
''')),
dict(id="in-compares-text", property="C30", pkg="gen",
  needs="a value that prints like another of a different type",
  breaks="they are taken as equal",
  edits=[("gen/funcmap_generic.go", "		if reflect.DeepEqual(first, value) {", "		if first != nil && value != nil && fmt.Sprint(first) == fmt.Sprint(value) {")],
  demo=gen('''	got, err := render(t, base, `{{ in 1 "1" }}`, nil)
	if err != nil || got != "false" {
		t.Fatal(err, got)
	}
''')),
dict(id="codegen-version-after-last-at", property="C31", pkg="gen",
  needs="a target with two @",
  breaks="name and version of the generator are split elsewhere",
  edits=[("gen/gen.go", '''	codeGenName, codeGenVersion, _ := strings.Cut(v[len(v)-1], "@")
''', '''	codeGenName, codeGenVersion := v[len(v)-1], ""
	if i := strings.LastIndex(codeGenName, "@"); i > 0 {
		codeGenName, codeGenVersion = codeGenName[:i], codeGenName[i+1:]
	}
''')],
  demo=gen('''	dir := t.TempDir() + "/a@1@2"
	if err := os.Mkdir(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(dir+"/main.go.tmpl", []byte(`{{define "main"}}{{.CodeGenName}} {{.CodeGenVersion}}{{end}}`), 0o644); err != nil {
		t.Fatal(err)
	}
	s, err := schema.ParseSchemaJSON([]byte(base))
	if err != nil {
		t.Fatal(err)
	}
	out, err := gen.Generate(s, dir, &gen.Config{})
	if err != nil || out.Code != "a 1@2" {
		t.Fatal(err, out.Code)
	}
''')),
dict(id="integer-types-appended-to", property="C33", pkg="schema", flags="-race",
  needs="two schemas with enums parsed at the same time",
  breaks="a data race on the list of integer types",
  edits=[("schema/var_type.go", '''var VarIntegerCoreTypes = []CoreType{
	T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,
}
''', '''var VarIntegerCoreTypes = append([]CoreType{
	T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64}, T_Int, T_Int8, T_Int16, T_Int32, T_Int64, T_Int64)
''')],
  demo=json_('''	var wg sync.WaitGroup
	for i := 0; i < 50; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"enum","name":"E","type":"int","fields":[{"name":"A","value":"1"}]}],"services":[]}`))
		}()
	}
	wg.Wait()
''' % J, ["sync"])),
dict(id="back-reference-of-import", property="C34", pkg="schema/ridl",
  needs="a service of an imported file",
  breaks="it refers to the schema of that file rather than to the whole",
  edits=[("schema/service.go", "	s.Schema = schema // back-ref\n", "	if s.Schema == nil {\n		s.Schema = schema // back-ref\n	}\n")],
  demo=ridl('''	s, err := parse(t, map[string]string{
		"main.ridl": "%simport a.ridl\\nservice B\\n  - X()\\n", "a.ridl": "%sservice A\\n  - X()\\n"})
	if err != nil {
		t.Fatal(err)
	}
	for _, v := range s.Services {
		if v.Schema != s {
			t.Fatal(v.Name)
		}
	}
''' % (H, H))),
dict(id="second-import-of-a-file-ignored", property="C13", pkg="schema/ridl",
  needs="a file imported twice with different members",
  breaks="the members of the second import are missing",
  edits=[("schema/ridl/ridl.go", '''	for _, line := range q.root.Imports() {
		importPath := path.Join(path.Dir(p.path), line.Path().String())
''', '''	done := map[string]bool{}
	for _, line := range q.root.Imports() {
		importPath := path.Join(path.Dir(p.path), line.Path().String())
		if done[importPath] {
			continue
		}
		done[importPath] = true
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{
		"main.ridl": "%simport a.ridl\\n  - A\\n\\nimport a.ridl\\n  - B\\n", "a.ridl": "%sstruct A\\n  - x: int\\nstruct B\\n  - x: int\\n"})
	if err != nil || len(s.Types) != 2 {
		t.Fatal(err, s)
	}
''' % (H, H))),
dict(id="hash-without-basepath", property="C12", pkg="schema",
  needs="two schemas that differ in their base path",
  breaks="their hashes are equal",
  edits=[("schema/schema.go", "	jsonString, err := s.ToJSON()\n", "	def := *s\n	def.BasePath = \"\" // where it is served makes no difference\n	jsonString, err := def.ToJSON()\n")],
  demo=json_('''	hash := func(p string) string {
		s, err := schema.ParseSchemaJSON([]byte(`%s"basepath":"` + p + `","types":[],"services":[]}`))
		if err != nil {
			t.Fatal(err)
		}
		h, err := s.SchemaHash()
		if err != nil {
			t.Fatal(err)
		}
		return h
	}
	if hash("/a") == hash("/b") {
		t.Fatal("same")
	}
''' % J)),
dict(id="first-option-wins", property="C29", pkg="gen",
  needs="an option of the template given twice",
  breaks="the first value is taken",
  edits=[("cmd/webrpc-gen/main.go", '''		} else {
			templateOpts[name] = value
		}
''', '''		} else if old, ok := templateOpts[name]; !ok || old == "" {
			templateOpts[name] = value
		}
''')],
  demo=clid('''	write(t, dir+"/a.json", `%s"types":[],"services":[]}`)
	write(t, dir+"/t/main.go.tmpl", `{{define "main"}}{{.Opts.x}}{{end}}`)
	out, err := cli(t, dir, "-schema=a.json", "-target=./t", "-x=1", "-x=2")
	if err != nil || out != "2\\n" {
		t.Fatal(err, out)
	}
''' % J)),
dict(id="formats-similar-targets", property="C28", pkg="gen",
  needs="a target whose name contains gen-golang but isn't a Go generator",
  breaks="its output is formatted as Go",
  edits=[("gen/helpers.go", '''	if strings.HasSuffix(target, "gen-golang") {''', '''	if strings.Contains(target, "gen-golang") {''')],
  demo=gen('''	dir := t.TempDir() + "/gen-golang-docs"
	if err := os.Mkdir(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(dir+"/main.go.tmpl", []byte(`{{define "main"}}package   a{{end}}`), 0o644); err != nil {
		t.Fatal(err)
	}
	s, err := schema.ParseSchemaJSON([]byte(base))
	if err != nil {
		t.Fatal(err)
	}
	out, err := gen.Generate(s, dir, &gen.Config{Format: true})
	if err != nil || out.Code != "package   a" {
		t.Fatal(err, out.Code)
	}
''')),
dict(id="symlinks-resolved", property="C24", pkg=".",
  needs="a schema file that is a symbolic link to another directory, with imports",
  breaks="imports are looked for next to the file that the link refers to",
  edits=[("webrpc.go", '''	ext := filepath.Ext(absolutePath)
''', '''	ext := filepath.Ext(absolutePath)
	if real, err := filepath.EvalSymlinks(absolutePath); err == nil && filepath.Ext(real) == ext {
		absolutePath = real
	}
'''), ("webrpc.go", '''		json, err := os.ReadFile(absolutePath)
		if err != nil {
			return nil, fmt.Errorf("failed to read %q: %w", path, err)
		}

		return schema.ParseSchemaJSON(json)
''', '''		text, err := os.ReadFile(absolutePath)
		if err != nil {
			return nil, fmt.Errorf("failed to read %q: %w", path, err)
		}

		return schema.ParseSchemaJSON(text)
''')],
  demo='''package webrpc_test

import (
	"os"
	"testing"

	"github.com/webrpc/webrpc"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	write := func(name, text string) {
		if err := os.WriteFile(dir+"/"+name, []byte("webrpc = v1\\nname = a\\nversion = v1\\n"+text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	if err := os.Mkdir(dir+"/real", 0o755); err != nil {
		t.Fatal(err)
	}
	write("real/a.ridl", "import b.ridl\\n")
	write("real/b.ridl", "")
	write("b.ridl", "struct A\\n  - x: string\\n")
	if err := os.Symlink("real/a.ridl", dir+"/a.ridl"); err != nil {
		t.Fatal(err)
	}
	s, err := webrpc.ParseSchemaFile(dir + "/a.ridl")
	if err != nil || len(s.Types) != 1 {
		t.Fatal(err, s)
	}
}
'''),
]

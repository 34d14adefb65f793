exec(open("/verif/tools/plants/l.py").read().split("\nPLANTS = [")[0])
SRC = '`{"webrpc":"v1","name":"a","version":"v1","types":[%s],"services":[]}`'

PLANTS = [
dict(id="escapes-undone-in-json", property="C11", pkg="schema",
  needs="a text that itself contains \\u003c",
  breaks="the JSON form isn't JSON any more, or holds another text",
  edits=[("schema/schema.go", "	enc.SetEscapeHTML(false)\n", ""), ("schema/schema.go", "	return buf.String(), nil\n", """	// readable, as for example map<string,int>
	return strings.NewReplacer(`\\u003c`, "<", `\\u003e`, ">", `\\u0026`, "&").Replace(buf.String()), nil
""")],
  demo=json_("""	s, err := schema.ParseSchemaJSON([]byte(""" + SRC % r'{"kind":"struct","name":"A","comments":["a \\u003c b"]}' + """))
	if err != nil {
		t.Fatal(err)
	}
	a, _ := s.ToJSON()
	r, err := schema.ParseSchemaJSON([]byte(a))
	if err != nil || r.Types[0].Comments[0] != s.Types[0].Comments[0] {
		t.Fatal(err, a)
	}
""")),
dict(id="whole-numbers-in-metadata", property="C01", pkg="schema/ridl",
  needs="a metadata value of digits with zeros in front",
  breaks="the zeros are lost",
  edits=[("schema/ridl/ridl.go", "			for _, meta := range def.Meta() {\n				key, val := meta.Left().String(), meta.Right().String()\n", """			for _, meta := range def.Meta() {
				key, val := meta.Left().String(), meta.Right().String()
				if n, err := strconv.Atoi(val); err == nil {
					val = strconv.Itoa(n)
				}
""")],
  demo=rf("""	s, err := ridl.NewParser(files("main.ridl", "struct S\\n  - a: int\\n    + k = 007\\n"), "/", "main.ridl").Parse()
	if err != nil || s.Types[0].Fields[0].Meta[0]["k"] != "007" {
		t.Fatal(err, s)
	}
""")),
dict(id="shake-of-everything", property="C18", pkg="schema",
  needs="services whose methods use no types at all",
  breaks="all types are kept",
  edits=[("schema/schema.go", "	s.Types = kept\n", """	if kept != nil {
		s.Types = kept
	}
""")],
  demo=json_("""	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[{"kind":"struct","name":"A","fields":[]}],"services":[{"name":"S","methods":[{"name":"M","inputs":[],"outputs":[]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(schema.MethodTreeShake(s, []string{"S"}).Types); n != 0 {
		t.Fatal(n)
	}
""")),
dict(id="cached-templates-of-64k", property="C32", pkg="gen",
  needs="a template file of more than 64 KiB, used from the cache",
  breaks="it is cut off",
  edits=[("gen/template_source.go", "		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)\n", """		// a template is never that large
		if len(data) > 1<<16 {
			data = data[:1<<16]
		}
		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)
""")],
  files=ingen("""	s := &TemplateSource{}
	dir := t.TempDir()
	text := strings.Repeat("some words ", 10000)
	if err := s.cacheTemplates("github.com/x/y", http.FS(fstest.MapFS{"main.go.tmpl": {Data: []byte(text)}}), dir); err != nil {
		t.Fatal(err)
	}
	b, err := os.ReadFile(dir + "/main.go.tmpl")
	if err != nil || string(b) != text {
		t.Fatal(err, len(b))
	}
""", ["net/http", "os", "strings", "testing/fstest"])),
dict(id="blanks-count-as-empty", property="C30", pkg="gen",
  needs="default or coalesce of a text of blanks",
  breaks="it counts as empty",
  edits=[("gen/funcmap_generic.go", """	if !val.IsValid() || val.IsZero() {
		return defaultValue
""", """	if str, ok := value.(string); ok && strings.TrimSpace(str) == "" {
		return defaultValue
	}
	if !val.IsValid() || val.IsZero() {
		return defaultValue
"""), ("gen/funcmap_generic.go", '	"sort"\n', '	"sort"\n	"strings"\n')],
  files=ingen("""	if v := defaultFn(" ", "x"); v != " " {
		t.Fatal(v)
	}
""")),
dict(id="sort-folds-case", property="C30", pkg="gen",
  needs="texts with letters of both cases",
  breaks="the order isn't that of the texts",
  edits=[("gen/funcmap_generic.go", "		return toString(sorted[i]) < toString(sorted[j])\n", "		return strings.ToLower(toString(sorted[i])) < strings.ToLower(toString(sorted[j]))\n"),
    ("gen/funcmap_generic.go", '	"sort"\n', '	"sort"\n	"strings"\n')],
  files=ingen("""	if v := sortFn([]interface{}{"a", "B"}); v[0] != "B" {
		t.Fatal(v)
	}
""")),
dict(id="split-in-a-hundred", property="C30", pkg="gen",
  needs="a text of more than a hundred parts",
  breaks="the rest is one part",
  edits=[("gen/funcmap_string.go", "	return strings.Split(str, sep)\n", "	return strings.SplitN(str, sep, 100)\n")],
  files=ingen("""	if n := len(split(",", strings.Repeat(",", 150))); n != 151 {
		t.Fatal(n)
	}
""", ["strings"])),
dict(id="first-value-of-json", property="C16", pkg="schema",
  needs="a JSON file with another value after the first",
  breaks="the rest is ignored",
  edits=[("schema/parser.go", "	err := json.Unmarshal(jsondata, &schema)\n", "	err := json.NewDecoder(bytes.NewReader(jsondata)).Decode(&schema)\n"),
    ("schema/parser.go", 'import (\n', 'import (\n	"bytes"\n')],
  demo=json_("""	if _, err := schema.ParseSchemaJSON([]byte(""" + SRC % "" + """ + "\\n{}")); err == nil {
		t.Fatal("accepted")
	}
""")),
dict(id="blanks-in-json-types", property="C08", pkg="schema",
  needs="a type in JSON with a blank in it",
  breaks="the blank is dropped, and a malformed type is accepted",
  edits=[("schema/var_type.go", '	vt.Expr = expr\n\n	// parse data', '	expr = strings.ReplaceAll(expr, " ", "")\n	vt.Expr = expr\n\n	// parse data')],
  demo=json_("""	if _, err := schema.ParseSchemaJSON([]byte(""" + SRC % '{"kind":"struct","name":"A","fields":[{"name":"a","type":"str ing"}]}' + """)); err == nil {
		t.Fatal("accepted")
	}
""")),
dict(id="names-alike-in-64", property="C01", pkg="schema", also=["C09", "C10"],
  needs="two fields whose names have the first 64 letters in common",
  breaks="they count as duplicates",
  edits=[("schema/type.go", "		fieldNameLower := strings.ToLower(fieldName)\n", """		fieldNameLower := strings.ToLower(fieldName)
		if len(fieldNameLower) > 64 {
			fieldNameLower = fieldNameLower[:64]
		}
""")],
  demo=json_("""	x := strings.Repeat("x", 64)
	if _, err := schema.ParseSchemaJSON([]byte(""" + SRC % """{"kind":"struct","name":"A","fields":[{"name":"` + x + `a","type":"int"},{"name":"` + x + `b","type":"int"}]}""" + """)); err != nil {
		t.Fatal(err)
	}
""", ["strings"])),
dict(id="types-alike-in-32", property="C07", pkg="schema", also=["C01", "C10"],
  needs="two types whose names have the first 32 letters in common",
  breaks="a reference to the second resolves to the first",
  edits=[("schema/var_type.go", "		if structExpr == string(typ.Name) {\n", "		if len(structExpr) == len(typ.Name) && structExpr[:min(len(structExpr), 32)] == typ.Name[:min(len(typ.Name), 32)] {\n")],
  demo=json_("""	x := strings.Repeat("X", 32)
	s, err := schema.ParseSchemaJSON([]byte(""" + SRC % """{"kind":"struct","name":"` + x + `A","fields":[]},{"kind":"struct","name":"` + x + `B","fields":[{"name":"b","type":"` + x + `B"}]}""" + """))
	if err != nil || s.Types[1].Fields[0].Type.Struct.Type != s.Types[1] {
		t.Fatal(err)
	}
""", ["strings"])),
dict(id="methods-alike-in-48", property="C02", pkg="schema", also=["C09", "C10"],
  needs="two methods whose names have the first 48 letters in common",
  breaks="they count as duplicates",
  edits=[("schema/service.go", "		methodNameLower := strings.ToLower(methodName)\n", "		methodNameLower := strings.ToLower(fmt.Sprintf(\"%.48s\", methodName))\n")],
  demo=json_("""	x := strings.Repeat("X", 64)
	if _, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[],"services":[{"name":"S","methods":[{"name":"` + x + `A","inputs":[],"outputs":[]},{"name":"` + x + `B","inputs":[],"outputs":[]}]}]}`)); err != nil {
		t.Fatal(err)
	}
""", ["strings"])),
]

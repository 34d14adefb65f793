exec(open("/verif/tools/plants/i.py").read().split("\nPLANTS = [")[0])
import re as _re
INGEN = _re.search(r"\nINGEN = .*?\'\'\'\n", open("/verif/tools/plants/f.py").read(), _re.S)
exec(INGEN.group(0))
def ingen(b, imports=()):
    return {"demo.sh": INGEN, "demo_test.go.txt": "package gen\n\nimport (\n%s)\n\nfunc TestDemo(t *testing.T) {\n%s}\n" % ("".join('\t"%s"\n' % i for i in sorted({"testing", *imports})), b)}

PLANTS = [
dict(id="comments-lose-a-blank", property="C11", pkg="schema",
  needs="a comment that begins with two blanks, in JSON",
  breaks="the JSON form, parsed again, gives another comment",
  edits=[("schema/type.go", '''	// Type name
	typName := string(t.Name)
''', '''	// the blank between # and the text
	for i, comment := range t.Comments {
		t.Comments[i] = strings.TrimPrefix(comment, " ")
	}

	// Type name
	typName := string(t.Name)
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`''' + J + '''"types":[{"kind":"struct","name":"A","fields":[],"comments":["   x"]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	a, _ := s.ToJSON()
	s, err = schema.ParseSchemaJSON([]byte(a))
	if err != nil {
		t.Fatal(err)
	}
	if b, _ := s.ToJSON(); a != b {
		t.Fatal(a, b)
	}
''')),
dict(id="type-expr-escapes-kept", property="C10", pkg="schema",
  needs="a JSON schema in which a character of a type is escaped, as some encoders do for < and >",
  breaks="the schema is rejected",
  edits=[("schema/var_type.go", '''	return json.Unmarshal(b, &t.Expr)
''', '''	t.Expr = string(b[1 : len(b)-1])
	return nil
''')],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`''' + J + '''"types":[{"kind":"struct","name":"A","fields":[{"name":"a","type":"map\\u003cstring,int\\u003e"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
''')),
dict(id="same-length-versions-as-text", property="C27", pkg="gen",
  needs="two versions of the same length with the dots at different places",
  breaks="1.9.10 is higher than 1.10.0",
  edits=[("gen/funcmap_flow.go", '''	if major != minMajor {
''', '''	if len(version) == len(minVersion) && version[0] == minVersion[0] {
		return version[:strings.Index(version+".", ".")+1] > minVersion || version >= minVersion || major > minMajor
	}

	if major != minMajor {
''')],
  files=ingen('''	if minVersion("v1.9.10", "v1.10.0") {
		t.Fatal("1.9 is not lower than 1.10")
	}
''')),
dict(id="imports-fold-case", property="C13", pkg="schema/ridl",
  needs="two imported files whose names differ only in letter case",
  breaks="the second one isn't read",
  edits=[("schema/ridl/ridl.go", '''		if _, ok := p.cache[importPath]; !ok {
''', '''		if _, ok := p.cache[strings.ToLower(importPath)]; !ok {
'''), ("schema/ridl/ridl.go", '''			p.cache[importPath] = imported
''', '''			p.cache[strings.ToLower(importPath)] = imported
'''), ("schema/ridl/ridl.go", '''		if imported := p.cache[importPath]; imported != nil {
''', '''		if imported := p.cache[strings.ToLower(importPath)]; imported != nil {
''')],
  demo=rfs('''	f := files("main.ridl", "import\\n  - x.ridl\\n  - X.ridl\\n", "x.ridl", "struct A\\n", "X.ridl", "struct B\\n")
	s, err := ridl.NewParser(f, "/", "main.ridl").Parse()
	if err != nil || s.GetTypeByName("B") == nil {
		t.Fatal(err, s)
	}
''')),
dict(id="lines-wrap-at-4096", property="C23", pkg="schema/ridl",
  needs="a syntax error behind line 4095",
  breaks="the line number in the error",
  edits=[("schema/ridl/lexer.go", '''		line: lx.line,
		col:  lx.col,
	}
	lx.start''', '''		line: lx.line & 0xfff,
		col:  lx.col,
	}
	lx.start''')],
  demo=rfs('''	_, err := ridl.NewParser(files("main.ridl", strings.Repeat("\\n", 5000)+"struct ?\\n"), "/", "main.ridl").Parse()
	if err == nil || !strings.Contains(err.Error(), "5004:") {
		t.Fatal(err)
	}
''').replace('"io/fs"\n', '"io/fs"\n\t"strings"\n')),
dict(id="empty-values-dont-exist", property="C30", pkg="gen",
  needs="a dictionary with an empty value",
  breaks="exists says that there is no such key",
  edits=[("gen/funcmap_dict.go", '''	_, ok := m[key]
	return ok
''', '''	value, ok := m[key]
	return ok && value != ""
''')],
  files=ingen('''	if !exists(map[string]interface{}{"a": ""}, "a") {
		t.Fatal("doesn't exist")
	}
''')),
dict(id="cache-of-folded-name", property="C32", pkg="gen",
  needs="two targets whose branches or tags differ only in letter case",
  breaks="they share a cache entry",
  edits=[("gen/template_source.go", '''	hash.Write([]byte(s.target))
''', '''	hash.Write([]byte(strings.ToLower(s.target)))
'''), ("gen/template_source.go", '''	name := parts[len(parts)-1]
''', '''	name := strings.ToLower(parts[len(parts)-1])
'''), ("gen/template_source.go", '''	if strings.TrimSpace(string(info)) != strings.TrimSpace(s.target) {
''', '''	if !strings.EqualFold(strings.TrimSpace(string(info)), strings.TrimSpace(s.target)) {
''')],
  files=ingen('''	t.Setenv("TMPDIR", t.TempDir())
	a, _ := NewTemplateSource("github.com/o/gen-x@v1", &Config{})
	b, _ := NewTemplateSource("github.com/o/gen-x@V1", &Config{})
	x, _ := a.getTmpCacheDir()
	y, _ := b.getTmpCacheDir()
	if x == y {
		t.Fatal(x)
	}
''')),
dict(id="cache-without-a-file", property="C32", pkg="gen",
  needs="a template that can't be written to the cache",
  breaks="the rest of the templates is cached as if they were complete",
  edits=[("gen/template_source.go", '''	for _, filename := range filenames {
		data, err := vfsutil.ReadFile(remoteFS, filename)
''', '''	var failed error
	for _, filename := range filenames {
		data, err := vfsutil.ReadFile(remoteFS, filename)
'''), ("gen/template_source.go", '''		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)
		if err != nil {
			return err
		}
''', '''		// write as many of them as possible
		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)
		if err != nil {
			failed = err
		}
'''), ("gen/template_source.go", '''	err = os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), data, 0755)
	if err != nil {
		return err
	}

	return nil
''', '''	err = os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), data, 0755)
	if err != nil {
		return err
	}

	return failed
''')],
  files=ingen('''	t.Setenv("TMPDIR", t.TempDir())
	src := t.TempDir()
	if err := os.WriteFile(src+"/main.go.tmpl", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	s := &TemplateSource{target: "x/y/z@v1"}
	dir, _ := s.getTmpCacheDir()
	if err := os.MkdirAll(dir+"/main.go.tmpl/in the way", 0o755); err != nil {
		t.Fatal(err)
	}
	if err := s.cacheTemplates(s.target, http.Dir(src), dir); err == nil {
		t.Fatal("no error")
	}
	if ok, _, _, _ := s.openCacheDir(); ok {
		t.Fatal("available")
	}
''', ["net/http", "os"])),
]

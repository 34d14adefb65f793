exec(open("/verif/tools/plants/k.py").read().split("\nPLANTS = [")[0])
exec("GEN = '''" + open("/verif/tools/plants/b.py").read().split("GEN = '''", 1)[1].split("\nPLANTS = [")[0])


def rf(b):
    return rfs(b).replace('"io/fs"\n', '"io/fs"\n' + "".join('\t"%s"\n' % i for i in ("fmt", "strings") if i + "." in b))

PLANTS = [
dict(id="files-of-256k", property="C37", pkg="schema/ridl",
  needs="a file of more than 256 KiB",
  breaks="the rest of it is ignored without an error",
  edits=[("schema/ridl/ridl.go", '''	q, err := newParser(p.path, src)
''', '''	if len(src) > 256<<10 {
		src = src[:256<<10]
	}

	q, err := newParser(p.path, src)
''')],
  demo=rf('''	text := strings.Repeat("# " + strings.Repeat("word ", 15) + "\\n", 4000) + "struct S\\n  - a: int\\n"
	s, err := ridl.NewParser(files("main.ridl", text), "/", "main.ridl").Parse()
	if err != nil || len(s.Types) != 1 {
		t.Fatal(err, s)
	}
''')),
dict(id="options-start-anywhere", property="C29", pkg="gen",
  needs="an option whose value contains another equals sign",
  breaks="the name takes up a part of the value",
  edits=[("cmd/webrpc-gen/main.go", "strings.Index(arg, \"=\"); i >= 0", "strings.LastIndex(arg, \"=\"); i >= 0")],

  demo=clid('''	write(t, dir+"/a.ridl", "webrpc = v1\\nname = a\\nversion = v1\\n")
	write(t, dir+"/tmpl/main.go.tmpl", "{{define \\"main\\"}}{{.Opts.x}}{{end}}")
	out, err := cli(t, dir, "-schema=a.ridl", "-target=./tmpl", "-x=a=b")
	if err != nil || out != "a=b\\n" {
		t.Fatal(err, out)
	}
''')),
dict(id="versions-packed", property="C27", pkg="gen",
  needs="a minor version of 1000 or more",
  breaks="v1.1000 passes for v2.0",
  edits=[("gen/funcmap_flow.go", '''	if major != minMajor {
		return major > minMajor
	}

	return minor >= minMinor
''', '''	return major*1000+minor >= minMajor*1000+minMinor
''')],
  demo=gen('''	out, err := render(t, base, `{{ minVersion "v1.1000" "v2.0" }}`, nil)
	if err != nil || out != "false" {
		t.Fatal(err, out)
	}
''')),
dict(id="join-of-many", property="C30", pkg="gen",
  needs="join with 33 or more elements",
  breaks="the separator is missing between the 32nd and the 33rd",
  edits=[("gen/funcmap_string.go", '''		strElems := make([]string, len(v))
		for i, elem := range v {
			strElems[i] = toString(elem)
		}
		return strings.Join(strElems, sep)
''', '''		var b strings.Builder
		for len(v) > 0 {
			chunk := v[:min(len(v), 32)]
			v = v[len(chunk):]
			strElems := make([]string, len(chunk))
			for i, elem := range chunk {
				strElems[i] = toString(elem)
			}
			b.WriteString(strings.Join(strElems, sep))
		}
		return b.String()
''')],
  demo=gen('''	out, err := render(t, base, `{{ $a := array }}{{ range .Opts.n }}{{ $a = append $a "x" }}{{ end }}{{ join $a "," }}`, map[string]interface{}{"n": make([]int, 40)})
	if err != nil || out != strings.Repeat("x,", 39)+"x" {
		t.Fatal(err, out)
	}
''', ["strings"])),
dict(id="nil-values-do-not-exist", property="C30", pkg="gen",
  needs="exists of a key whose value is nil",
  breaks="it says false",
  edits=[("gen/funcmap_dict.go", '''	_, ok := m[key]
	return ok
''', '''	return m[key] != nil
''')],
  demo=gen('''	out, err := render(t, base, `{{ $d := dict "a" nil }}{{ exists $d "a" }}`, nil)
	if err != nil || out != "true" {
		t.Fatal(err, out)
	}
''')),
dict(id="blanks-of-64", property="C06", pkg="schema/ridl",
  needs="more than 64 blanks in a row",
  breaks="a valid text is rejected where one blank is required, or two tokens of blanks appear",
  edits=[("schema/ridl/lexer.go", '''	for isSpace(lx.peek()) {
		lx.next()
	}

	lx.emit(tokenWhitespace)
''', '''	for n := 0; n < 64 && isSpace(lx.peek()); n++ {
		lx.next()
	}

	lx.emit(tokenWhitespace)
''')],
  demo=rf('''	s, err := ridl.NewParser(files("main.ridl", "struct" + strings.Repeat(" ", 100) + "S\\n  - a: int\\n"), "/", "main.ridl").Parse()
	if err != nil || len(s.Types) != 1 {
		t.Fatal(err)
	}
''')),
dict(id="comments-of-32-lines", property="C05", pkg="schema/ridl",
  needs="a comment of more than 32 lines",
  breaks="its first lines are left out",
  edits=[("schema/ridl/parser.go", '''			if !strings.HasPrefix(comment, "!") {
				c = append(c, comment)
			}
			delete(comments, currentLine)
			iteration = 0
''', '''			if !strings.HasPrefix(comment, "!") && len(c) < 32 {
				c = append(c, comment)
			}
			delete(comments, currentLine)
			iteration = 0
''')],
  demo=rf('''	s, err := ridl.NewParser(files("main.ridl", "\\n" + strings.Repeat("# line\\n", 50) + "struct S\\n  - a: int\\n"), "/", "main.ridl").Parse()
	if err != nil || len(s.Types[0].Comments) != 50 {
		t.Fatal(err)
	}
''')),
dict(id="member-lists-of-sixteen", property="C13", pkg="schema/ridl",
  needs="an import that lists more than 16 members",
  breaks="the others are left out",
  edits=[("schema/ridl/ridl.go", '''	for i := range whitelist {
		if name == whitelist[i] {''', '''	for i := range min(len(whitelist), 16) {
		if name == whitelist[i] {''')],
  demo=rf('''	text, list := "", ""
	for i := 0; i < 30; i++ {
		text += fmt.Sprintf("struct S%d\\n  - a: int\\n", i)
		list += fmt.Sprintf("  - S%d\\n", i)
	}
	s, err := ridl.NewParser(files("main.ridl", "import b.ridl\\n" + list, "b.ridl", text), "/", "main.ridl").Parse()
	if err != nil || len(s.Types) != 30 {
		t.Fatal(err)
	}
''')),
dict(id="stack-of-eight", property="C23", pkg="schema/ridl",
  needs="an error in a file behind more than eight imports",
  breaks="the root file isn't listed",
  edits=[("schema/ridl/ridl.go", "for p := parser; p != nil; p = p.parent {", "for p := parser; p != nil && len(stack) < 8; p = p.parent {")],
  demo=rf('''	fsys := files("f12.ridl", "struct\\n")
	for i := 0; i < 12; i++ {
		fsys[fmt.Sprintf("f%d.ridl", i)] = files("x", fmt.Sprintf("import f%d.ridl\\n", i+1))["x"]
	}
	_, err := ridl.NewParser(fsys, "/", "f0.ridl").Parse()
	if err == nil || !strings.Contains(err.Error(), "/f0.ridl") {
		t.Fatal(err)
	}
''')),
dict(id="codes-of-16-bits", property="C04", pkg="schema",
  needs="two error codes that differ by a multiple of 65536",
  breaks="the schema is rejected because of a duplicate code",
  edits=[("schema/error.go", "codeList := map[int]struct{}{}", "codeList := map[uint16]struct{}{}"),
         ("schema/error.go", "codeList[e.Code]; ok", "codeList[uint16(e.Code)]; ok"),
         ("schema/error.go", "codeList[e.Code] = struct", "codeList[uint16(e.Code)] = struct")],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[],"errors":[{"code":1,"name":"A","message":"m","httpStatus":400},{"code":65537,"name":"B","message":"m","httpStatus":400}],"services":[]}`))
	if err != nil {
		t.Fatal(err)
	}
''')),
dict(id="map-parts-remembered", property="C26", pkg="gen",
  needs="map types with the same value and different keys",
  breaks="the key is the one of the map seen first",
  edits=[("gen/funcmap_types.go", '''	case *schema.VarType:
		return toString(t.Map.Key)
	default:
''', '''	case *schema.VarType:
		if t.Map.Value.Type == schema.T_Map {
			key, _ := mapKeys.LoadOrStore(t.Map.Value.Expr, toString(t.Map.Key))
			return key.(string)
		}
		return toString(t.Map.Key)
	default:
'''), ("gen/funcmap_types.go", "// Returns given map's key type (ie", "// keys of nested maps\nvar mapKeys sync.Map\n\n// Returns given map's key type (ie"), ("gen/funcmap_types.go", '''	"strings"
''', '''	"strings"
	"sync"
''')],
  demo=gen('''	src := strings.Replace(base, `"types":[]`, `"types":[{"kind":"struct","name":"S","fields":[{"name":"a","type":"map<string,map<string,int>>"},{"name":"b","type":"map<int,map<string,int>>"}]}]`, 1)
	out, err := render(t, src, `{{ range .Types }}{{ range .Fields }}{{ mapKeyType .Type }};{{ end }}{{ end }}`, nil)
	if err != nil || out != "string;int;" {
		t.Fatal(err, out)
	}
''', ["strings"])),
]

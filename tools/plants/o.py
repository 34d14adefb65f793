exec(open("/verif/tools/plants/m.py").read().split("\nPLANTS = [")[0])
SRC = '`{"webrpc":"v1","name":"a","version":"v1","types":[%s],"services":[%s]}`'
SVC = '{"name":"%s","methods":[{"name":"M","inputs":[],"outputs":[]%s}]}'

PLANTS = [
dict(id="services-by-a-part-of-the-name", property="C19", pkg="schema",
  needs="a service whose name is a part of that of a selected one",
  breaks="it is kept too",
  edits=[("schema/schema.go", "		if _, ok := serviceMap[srv.Name]; ok {\n			matched", "		if _, ok := serviceMap[srv.Name]; ok || strings.Contains(strings.Join(services, \",\"), srv.Name) {\n			matched")],
  demo=json_("""	s, err := schema.ParseSchemaJSON([]byte(""" + SRC % ("", SVC % ("User", "") + "," + SVC % ("UserAdmin", "")) + """))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(schema.MatchServices(s, []string{"UserAdmin"}).Services); n != 1 {
		t.Fatal(n)
	}
""")),
dict(id="annotations-begin-with-the-name", property="C20", pkg="schema",
  needs="an annotation whose name begins with the one that is ignored",
  breaks="its methods are ignored too",
  edits=[("schema/schema.go", """			ignore := false
			for name, value := range annotations {
				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}
""", """			ignore := false
			for name, value := range annotations {
				ann, ok := method.Annotations[name]
				if !ok {
					for other := range method.Annotations {
						if value == "" && strings.HasPrefix(other, name+"-") {
							ignore = true // a family of annotations
						}
					}
					continue
				}
""")],
  demo=json_("""	s, err := schema.ParseSchemaJSON([]byte(""" + SRC % ("", SVC % ("S", ',"annotations":{"auth-x":{"annotationType":"auth-x","value":""}}')) + """))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(schema.IgnoreMethodsWithAnnotations(s, map[string]string{"auth": ""}).Services[0].Methods); n != 1 {
		t.Fatal(n)
	}
""")),
dict(id="environment-before-flags", property="C29", pkg="gen",
  needs="WEBRPC_SCHEMA_VERSION in the environment and a version as a flag",
  breaks="the flag doesn't count",
  edits=[("cmd/webrpc-gen/main.go", """	default:
		s.SchemaVersion = *schemaVersion
	}
""", """	default:
		s.SchemaVersion = *schemaVersion
		if version := os.Getenv("WEBRPC_SCHEMA_VERSION"); version != "" {
			s.SchemaVersion = version
		}
	}
""")],
  demo=clid("""	write(t, dir+"/a.ridl", "webrpc = v1\\nname = a\\nversion = v1\\n")
	t.Setenv("WEBRPC_SCHEMA_VERSION", "v3")
	out, err := cli(t, dir, "-schema=a.ridl", "-target=json", "-schemaVersion=v2")
	if err != nil || !strings.Contains(out, `"v2"`) {
		t.Fatal(err, out)
	}
""", ["strings"])),
dict(id="basepath-of-nothing", property="C29", pkg="gen",
  needs="a schema without services and without a base path",
  breaks="a base path is set",
  edits=[("cmd/webrpc-gen/main.go", '	if s.BasePath == "" && len(s.Services) > 0 {\n', '	if s.BasePath == "" {\n')],
  demo=clid("""	write(t, dir+"/a.ridl", "webrpc = v1\\nname = a\\nversion = v1\\n")
	out, err := cli(t, dir, "-schema=a.ridl", "-target=json")
	if err != nil || strings.Contains(out, `rpc/`) {
		t.Fatal(err, out)
	}
""", ["strings"])),
dict(id="one-new-directory", property="C29", pkg="gen",
  needs="an output file two directories below one that exists",
  breaks="it isn't written",
  edits=[("cmd/webrpc-gen/main.go", "os.MkdirAll(outdir, 0o755)", "os.Mkdir(outdir, 0o755)")],
  demo=clid("""	write(t, dir+"/a.ridl", "webrpc = v1\\nname = a\\nversion = v1\\n")
	if out, err := cli(t, dir, "-schema=a.ridl", "-target=json", "-out=b/c/d.json"); err != nil {
		t.Fatal(err, out)
	}
""")),
dict(id="imports-left-alone", property="C28", pkg="gen",
  needs="a Go template that imports what it doesn't use",
  breaks="formatting leaves the import in",
  edits=[("gen/helpers.go", "AllErrors: true, Comments: true,", "AllErrors: true, Comments: true, FormatOnly: true,")],
  files=ingen("""	s, err := formatGoSource([]byte("package x\\n\\nimport \\"fmt\\"\\n\\nvar A = 1\\n"))
	if err != nil || strings.Contains(s, "fmt") {
		t.Fatal(err, s)
	}
""", ["strings"])),
dict(id="metadata-numbers-as-text", property="C10", pkg="schema",
  needs="a number as the value of metadata in JSON",
  breaks="it becomes a text",
  edits=[("schema/type.go", "func (t *Type) Parse(", """// UnmarshalJSON keeps numbers as they are written.
func (m *TypeFieldMeta) UnmarshalJSON(b []byte) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	values := map[string]interface{}{}
	if err := d.Decode(&values); err != nil {
		return err
	}
	for k, v := range values {
		if n, ok := v.(json.Number); ok {
			values[k] = n.String()
		}
	}
	*m = values
	return nil
}

func (t *Type) Parse("""), ("schema/type.go", 'import (\n', 'import (\n	"bytes"\n	"encoding/json"\n')],
  demo=json_("""	s, err := schema.ParseSchemaJSON([]byte(""" + SRC % ('{"kind":"struct","name":"A","fields":[{"name":"a","type":"int","meta":[{"k":1}]}]}', "") + """))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := s.Types[0].Fields[0].Meta[0]["k"].(string); ok {
		t.Fatal("text")
	}
""")),
dict(id="unknown-members-rejected", property="C10", pkg="schema",
  needs="a member that a later version of the format knows",
  breaks="the schema is rejected",
  edits=[("schema/parser.go", "	err := json.Unmarshal(jsondata, &schema)\n	if err != nil {\n		return nil, err\n	}\n", """	err := json.Unmarshal(jsondata, &schema)
	if err != nil {
		return nil, err
	}
	d := json.NewDecoder(bytes.NewReader(jsondata))
	d.DisallowUnknownFields()
	if err := d.Decode(&schema); err != nil {
		return nil, err
	}
"""), ("schema/parser.go", 'import (\n', 'import (\n	"bytes"\n')],
  demo=json_("""	if _, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[],"services":[],"imports":[]}`)); err != nil {
		t.Fatal(err)
	}
""")),
dict(id="whole-lines-are-enough", property="C37", pkg="schema/ridl",
  needs="a read error at the end of a line",
  breaks="the rest of the file is ignored",
  edits=[("schema/ridl/ridl.go", """	src, err := fs.ReadFile(p.fsys, p.path)
	if err != nil {
		return nil, fmt.Errorf("failed to read file: %w", err)
	}
""", """	src, err := fs.ReadFile(p.fsys, p.path)
	if err != nil && len(src) > 0 && src[len(src)-1] == '\\n' {
		err = nil // the lines up to here are complete
	}
	if err != nil {
		return nil, fmt.Errorf("failed to read file: %w", err)
	}
""")],
  demo=rf("""	if _, err := ridl.NewParser(broken{files("main.ridl", "struct A\\n  - a: int\\n")}, "/", "main.ridl").Parse(); err == nil {
		t.Fatal("no error")
	}
""") + '''
type broken struct{ fs.FS }

func (b broken) Open(name string) (fs.File, error) {
	f, err := b.FS.Open(name)
	return brokenFile{f}, err
}

type brokenFile struct{ fs.File }

func (f brokenFile) Read(p []byte) (int, error) {
	n, err := f.File.Read(p[:min(len(p), 100)])
	if n == 0 {
		err = fs.ErrClosed
	}
	return n, err
}
'''),
]

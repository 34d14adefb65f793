exec(open("/verif/tools/plants/l.py").read().split("\nPLANTS = [")[0])

HASH = '	h := sha1.New()\n	h.Write([]byte(jsonString))\n'
def hashes(a, b):
    return json_("""	hash := func(name string) string {
		s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"` + name + `","version":"v1","types":[],"services":[]}`))
		if err != nil {
			t.Fatal(err)
		}
		h, err := s.SchemaHash()
		if err != nil {
			t.Fatal(err)
		}
		return h
	}
	if hash(%s) == hash(%s) {
		t.Fatal("equal")
	}
""" % (a, b), ["strings"] if "strings." in a + b else [])

PLANTS = [
dict(id="hash-of-words", property="C12", pkg="schema",
  needs="two schemas that differ in blanks within a value only",
  breaks="they have the same hash",
  edits=[("schema/schema.go", HASH, """	// however it is indented
	h := sha1.New()
	h.Write([]byte(strings.Join(strings.Fields(jsonString), " ")))
""")],
  demo=hashes('"a b"', '"a  b"')),
dict(id="hash-of-64k", property="C12", pkg="schema",
  needs="two schemas that differ after the first 64 KiB of their JSON form",
  breaks="they have the same hash",
  edits=[("schema/schema.go", HASH, """	h := sha1.New()
	h.Write([]byte(jsonString[:min(len(jsonString), 1<<16)]))
""")],
  demo=hashes('strings.Repeat("x", 70000) + "a"', 'strings.Repeat("x", 70000) + "b"')),
dict(id="fresh-for-two-hours", property="C32", pkg="gen",
  needs="templates that were cached between one and two hours ago",
  breaks="they are used without trying to fetch",
  edits=[("gen/template_source.go", "cacheAge > templateCacheTTL {", "cacheAge.Truncate(time.Hour) > templateCacheTTL {")],
  files=ingen("""	t.Setenv("TMPDIR", t.TempDir())
	t.Setenv("HTTPS_PROXY", "http://127.0.0.1:1")
	s := &TemplateSource{target: "github.com/x/y@v1"}
	dir, _ := s.getTmpCacheDir()
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	for name, text := range map[string]string{"main.go.tmpl": "{{define `main`}}x{{end}}", ".webrpc-gen-info": s.target, ".webrpc-gen-timestamp": fmt.Sprint(time.Now().Unix() - 5400)} {
		if err := os.WriteFile(dir+"/"+name, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	out, err := Generate(&schema.WebRPCSchema{}, s.target, &Config{})
	if err != nil || out.CacheRefreshErr == nil {
		t.Fatal(err, out)
	}
""", ["fmt", "os", "time", "github.com/webrpc/webrpc/schema"])),
dict(id="output-emptied-first", property="C29", pkg="gen",
  needs="a generation that fails, with an output file",
  breaks="the file is there, and empty",
  edits=[("cmd/webrpc-gen/main.go", """	genOutput, err := gen.Generate(""", """	// fail early if the output can't be written
	if *outFlag != "" && *outFlag != "stdout" {
		if err := writeOutfile(*outFlag, nil); err != nil {
			fmt.Fprintln(os.Stderr, err.Error())
			os.Exit(1)
		}
	}

	genOutput, err := gen.Generate(""")],
  demo=clid("""	write(t, dir+"/a.ridl", "webrpc = v1\\nname = a\\nversion = v1\\n")
	if _, err := cli(t, dir, "-schema=a.ridl", "-target=./none", "-out=out"); err == nil {
		t.Fatal("no error")
	}
	if _, err := os.Stat(dir + "/out"); err == nil {
		t.Fatal("written")
	}
""")),
dict(id="paths-expand-variables", property="C24", pkg=".",
  needs="a path with a dollar sign",
  breaks="another file is read, or none",
  edits=[("webrpc.go", "	absolutePath, err := filepath.Abs(path)\n", "	absolutePath, err := filepath.Abs(os.ExpandEnv(path))\n")],
  demo='''package webrpc_test

import (
	"os"
	"testing"

	"github.com/webrpc/webrpc"
)

func TestDemo(t *testing.T) {
	f := t.TempDir() + "/a$b.ridl"
	if err := os.WriteFile(f, []byte("webrpc = v1\\nname = a\\nversion = v1\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	if _, err := webrpc.ParseSchemaFile(f); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="old-targets-by-their-new-name", property="C31", pkg="gen",
  needs="one of the old names of targets (go, ts, js)",
  breaks="the template sees another target than the one given",
  edits=[("gen/gen.go", """	target = getOldTarget(target)
""", """	target = getOldTarget(target)
	vars.WebrpcTarget = target
""")],
  files=ingen("""	t.Setenv("TMPDIR", t.TempDir())
	t.Setenv("HTTPS_PROXY", "http://127.0.0.1:1")
	s := &TemplateSource{target: "github.com/webrpc/gen-golang@v0.6.0"}
	dir, _ := s.getTmpCacheDir()
	if err := os.MkdirAll(dir, 0o755); err != nil {
		t.Fatal(err)
	}
	for name, text := range map[string]string{"main.go.tmpl": "{{define `main`}}{{.WebrpcTarget}}{{end}}", ".webrpc-gen-info": s.target, ".webrpc-gen-timestamp": fmt.Sprint(time.Now().Unix())} {
		if err := os.WriteFile(dir+"/"+name, []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	out, err := Generate(&schema.WebRPCSchema{}, "go", &Config{})
	if err != nil || out.Code != "go" {
		t.Fatal(err, out)
	}
""", ["fmt", "os", "time", "github.com/webrpc/webrpc/schema"])),
dict(id="types-parsed-twice", property="C15", pkg="schema/ridl", flags="-timeout 20s",
  needs="a list nested more than some 25 deep",
  breaks="parsing takes twice as long for each level, in effect forever",
  edits=[("schema/var_type.go", """		expr = strings.TrimPrefix(expr, CoreTypeToString[T_List])
		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil {
			return err
		}
""", """		expr = strings.TrimPrefix(expr, CoreTypeToString[T_List])
		if err := ParseVarTypeExpr(schema, expr, &VarType{}); err != nil {
			return fmt.Errorf("list element: %w", err)
		}
		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil {
			return err
		}
""")],
  demo=rf("""	_, err := ridl.NewParser(files("main.ridl", "struct S\\n  - a: " + strings.Repeat("[]", 60) + "int\\n"), "/", "main.ridl").Parse()
	if err != nil {
		t.Fatal(err)
	}
""")),
dict(id="bigints-over-all-paths", property="C21", pkg="schema", flags="-timeout 20s",
  needs="a row of some thirty structs, each with two fields of the next",
  breaks="the analysis takes twice as long for each, in effect forever",
  edits=[("schema/helpers.go", """		memo[t.Name] = false
		return false
	}
""", """		return false
	}
""")],
  demo=json_("""	types := ""
	for i := 0; i < 40; i++ {
		types += fmt.Sprintf(`{"kind":"struct","name":"S%d","fields":[{"name":"a","type":"S%d"},{"name":"b","type":"S%d"}]},`, i, i+1, i+1)
	}
	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[` + types + `{"kind":"struct","name":"S40","fields":[]}],"services":[]}`))
	if err != nil {
		t.Fatal(err)
	}
	if schema.SchemaUsesBigInts(s) {
		t.Fatal("true")
	}
""", ["fmt"])),
]

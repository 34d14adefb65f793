exec(open("/verif/tools/plants/b.py").read().split("\nPLANTS = [")[0])

J = '{"webrpc":"v1","name":"a","version":"v1",'

INGEN = '''#!/bin/bash
# Fails if the change is applied. Run in the repository. The package gen needs
# two template modules that aren't available here; stand-ins take their place.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off HOME=/root
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cp go.mod "$tmp/go.mod"; cp go.sum "$tmp/go.sum"
for g in golang typescript; do
  mkdir -p "$tmp/gen-$g"
  printf 'module github.com/webrpc/gen-%s\\n\\ngo 1.24\\n' $g > "$tmp/gen-$g/go.mod"
  printf 'package %s\\n\\nimport "embed"\\n\\n//go:embed *.go.tmpl\\nvar FS embed.FS\\n' $g > "$tmp/gen-$g/embed.go"
  printf 'x\\n' > "$tmp/gen-$g/main.go.tmpl"
  echo "replace github.com/webrpc/gen-$g => $tmp/gen-$g" >> "$tmp/go.mod"
done
printf '{"Replace":{"%s/gen/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -modfile "$tmp/go.mod" -overlay "$tmp/overlay.json" -run '^TestDemo$' ./gen
'''

PLANTS = [
dict(id="empty-options-dropped", property="C31", pkg="gen", also=["C29"],
  needs="a template option with an empty value",
  breaks="the template doesn't see the option",
  edits=[("gen/gen.go", "		Opts:             config.TemplateOptions,\n	}\n", '''		Opts:             map[string]interface{}{},
	}
	for name, value := range config.TemplateOptions {
		if value != "" {
			vars.Opts[name] = value
		}
	}
''')],
  demo=gen('''	got, err := render(t, base, `{{ exists .Opts "x" }}`, map[string]interface{}{"x": ""})
	if err != nil || got != "true" {
		t.Fatal(err, got)
	}
''')),
dict(id="debug-keys-unsorted", property="C28", pkg="gen",
  needs="the debug target with five options or more",
  breaks="the options come in random order",
  edits=[("gen/gen.go", "		debug.SortKeys = true\n", "		debug.SortKeys = len(vars.Opts) < 5\n")],
  demo=gen('''	s, err := schema.ParseSchemaJSON([]byte(base))
	if err != nil {
		t.Fatal(err)
	}
	opts := map[string]interface{}{}
	for _, o := range "abcdefghijklmnop" {
		opts[string(o)] = ""
	}
	seen := map[string]bool{}
	for i := 0; i < 30; i++ {
		out, err := gen.Generate(s, "debug", &gen.Config{TemplateOptions: opts})
		if err != nil {
			t.Fatal(err)
		}
		seen[out.Code] = true
	}
	if len(seen) != 1 {
		t.Fatal("differs")
	}
''')),
dict(id="minor-of-major-zero", property="C27", pkg="gen",
  needs="two versions with major 0",
  breaks="their minors aren't compared",
  edits=[("gen/funcmap_flow.go", "	if len(parts) > 1 {\n		minor, err", "	if len(parts) > 1 && major != 0 {\n		minor, err")],
  demo=gen('''	got, err := render(t, base, `{{ minVersion "v0.5.0" "v0.7" }}`, nil)
	if err != nil || got != "false" {
		t.Fatal(err, got)
	}
''')),
dict(id="key-type-of-alias", property="C26", pkg="gen",
  needs="a map whose key is an alias of an enum",
  breaks="the key type is the enum rather than the alias",
  edits=[("gen/funcmap_types.go", "	case *schema.VarType:\n		return toString(t.Map.Key)\n", '''	case *schema.VarType:
		if e := t.Map.Key.Enum; e != nil && e.Type.Type != nil && e.Type.Type.Enum != nil {
			return e.Type.Type.Enum.Name
		}
		return toString(t.Map.Key)
''')],
  demo=gen('''	got, err := render(t, `%s"types":[{"kind":"enum","name":"E","type":"int","fields":[{"name":"A","value":"0"}]},{"kind":"alias","name":"B","type":"E"},{"kind":"struct","name":"A","fields":[{"name":"b","type":"map<B,int>"}]}],"services":[]}`, `{{ mapKeyType (index (index .Types 2).Fields 0).Type }}`, nil)
	if err != nil || got != "B" {
		t.Fatal(err, got)
	}
''' % J)),
dict(id="timestamp-in-milliseconds", property="C32", pkg="gen",
  needs="templates that were fetched more than an hour ago by the same version",
  breaks="they are never fetched again",
  edits=[("gen/template_source.go", '''	data := []byte(fmt.Sprintf("%d", now.Unix()))''', '''	data := []byte(fmt.Sprintf("%d", now.UnixMilli()))''')],
  files={"demo.sh": INGEN, "demo_test.go.txt": '''package gen

import (
	"net/http"
	"os"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	t.Setenv("TMPDIR", t.TempDir())
	src := t.TempDir()
	if err := os.WriteFile(src+"/main.go.tmpl", []byte("x"), 0o644); err != nil {
		t.Fatal(err)
	}
	s := &TemplateSource{target: "x/y/z@v1"}
	dir, _ := s.getTmpCacheDir()
	if err := s.cacheTemplates(s.target, http.Dir(src), dir); err != nil {
		t.Fatal(err)
	}
	_, _, _, age := s.openCacheDir()
	if age < -time.Minute || age > time.Minute {
		t.Fatal(age)
	}
}
'''}),
dict(id="annotation-ends-the-file", property="C15", pkg="schema/ridl",
  needs="an annotation name as the very last word of the text",
  breaks="the parser panics",
  edits=[("schema/ridl/service_parser.go", "		if p.cursor().tt != tokenColon {", "		if p.tokens[p.pos].tt != tokenColon {")],
  demo=ridl('''	_, _ = parse(t, map[string]string{"main.ridl": "%sservice A\\n  - X()\\n  @auth"})
''' % H)),
dict(id="json-meta-by-kind", property="C16", pkg="schema",
  needs="a JSON schema in which the json meta of a field is null",
  breaks="the parser panics",
  edits=[("schema/type.go", "				jsonMetaString, ok := jsonMeta.(string)\n				if !ok {", "				jsonMetaString, ok := jsonMeta.(string)\n				if !ok && jsonMeta == nil {\n					jsonMetaString = field.Meta[0][\"go.field.name\"].(string)\n				} else if !ok {")],
  demo=json_('''	_, _ = schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"A","fields":[{"name":"x","type":"int","meta":[{"json":null}]}]}],"services":[]}`))
''' % J)),
dict(id="optional-fields-with-values", property="C09", pkg="schema", also=["C17"],
  needs="an optional struct field with a value in JSON",
  breaks="it is accepted",
  edits=[("schema/type.go", '''			if field.Value != "" {
				return fmt.Errorf("schema error: struct''', '''			if field.Value != "" && !field.Optional {
				return fmt.Errorf("schema error: struct''')],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"A","fields":[{"name":"x","type":"int","optional":true,"value":"1"}]}],"services":[]}`))
	if err == nil {
		t.Fatal("accepted")
	}
''' % J)),
dict(id="kinds-have-their-own-names", property="C09", pkg="schema", also=["C17"],
  needs="an alias and another type with names that differ only in case",
  breaks="they are accepted",
  edits=[("schema/type.go", "		if msg != t && name == strings.ToLower(string(msg.Name)) {", "		if msg != t && name == strings.ToLower(string(msg.Name)) && (msg.Kind == TypeKind_Alias) == (t.Kind == TypeKind_Alias) {")],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"A","fields":[]},{"kind":"alias","name":"a","type":"int"}],"services":[]}`))
	if err == nil {
		t.Fatal("accepted")
	}
	_, err = schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"Aa","fields":[]},{"kind":"alias","name":"AA","type":"int"}],"services":[]}`))
	if err == nil {
		t.Fatal("accepted")
	}
''' % (J, J))),
dict(id="members-cut-the-cache", property="C13", pkg="schema/ridl",
  needs="two files that import the same file, the first with a member list",
  breaks="the second one only gets the members of the first",
  edits=[("schema/ridl/ridl.go", '''			for i := range imported.Types {
				if !slices.Contains(s.Types, imported.Types[i]) && isImportAllowed(imported.Types[i].Name, members) {
					s.Types = append(s.Types, imported.Types[i])
				}
			}
''', '''			if p.parent != nil {
				imported.Types = slices.DeleteFunc(imported.Types, func(t *schema.Type) bool { return !isImportAllowed(t.Name, members) })
			}
			for i := range imported.Types {
				if !slices.Contains(s.Types, imported.Types[i]) && isImportAllowed(imported.Types[i].Name, members) {
					s.Types = append(s.Types, imported.Types[i])
				}
			}
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{
		"main.ridl": "%simport\\n  - a.ridl\\n  - b.ridl\\n", "a.ridl": "%simport c.ridl\\n  - C1\\n", "b.ridl": "%simport c.ridl\\n",
		"c.ridl": "%sstruct C1\\n  - x: int\\nstruct C2\\n  - x: int\\n"})
	if err != nil || len(s.Types) != 2 {
		t.Fatal(err, s)
	}
''' % (H, H, H, H))),
dict(id="cycle-behind-the-root", property="C14", pkg="schema/ridl",
  needs="a cycle of imports that doesn't contain the root file",
  breaks="it is accepted",
  edits=[("schema/ridl/ridl.go", "			imported, err := parser.Parse()\n", "			p.cache[importPath] = nil // don't start again\n			imported, err := parser.Parse()\n"),
         ("schema/ridl/ridl.go", "		if _, ok := p.cache[importPath]; !ok {\n", "		if _, done := p.cache[importPath]; !done {\n")],
  demo=ridl('''	_, err := parse(t, map[string]string{"main.ridl": "%simport a.ridl\\n", "a.ridl": "%simport b.ridl\\n", "b.ridl": "%simport a.ridl\\n"})
	if err == nil {
		t.Fatal("accepted")
	}
''' % (H, H, H))),
dict(id="shake-outputs-of-bidirectional", property="C18", pkg="schema",
  needs="a type that is used only in the output of a method that streams both ways",
  breaks="it is dropped",
  edits=[("schema/schema.go", "			for _, out := range m.Outputs {\n				walkVarType(out.Type, mark)\n", "			for _, out := range m.Outputs {\n				if m.StreamInput && m.StreamOutput {\n					break // same as the inputs\n				}\n				walkVarType(out.Type, mark)\n")],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"E","fields":[]}],"services":[{"name":"A","methods":[{"name":"X","streamInput":true,"streamOutput":true,"outputs":[{"name":"m","type":"E"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.MethodTreeShake(s, []string{"A"}); len(s.Types) != 1 {
		t.Fatal(s.Types)
	}
''' % J)),
dict(id="ignored-values-fold-case", property="C20", pkg="schema",
  needs="an annotation value that differs in case from the one to ignore",
  breaks="the method is dropped",
  edits=[("schema/schema.go", '''					if name == ann.AnnotationType && value == ann.Value {
						ignore = true''', '''					if name == ann.AnnotationType && strings.EqualFold(value, ann.Value) {
						ignore = true''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[],"services":[{"name":"A","methods":[{"name":"X","annotations":{"a":{"annotationType":"a","value":"Admin"}}}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.IgnoreMethodsWithAnnotations(s, map[string]string{"a": "admin"}); len(s.Services[0].Methods) != 1 {
		t.Fatal(s)
	}
''' % J)),
dict(id="bigint-of-input-streams", property="C21", pkg="schema",
  needs="a method with an input stream and a bigint output",
  breaks="the output isn't listed",
  edits=[("schema/helpers.go", "			var respList []any\n			for _, arg := range m.Outputs {\n				if arg == nil || arg.Type == nil {", "			var respList []any\n			for _, arg := range m.Outputs {\n				if arg == nil || arg.Type == nil || m.StreamInput && !m.StreamOutput {")],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[],"services":[{"name":"A","methods":[{"name":"X","streamInput":true,"outputs":[{"name":"m","type":"bigint"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if m := schema.SchemaBigIntFieldsByType(s); len(m["XResponse"]) != 1 {
		t.Fatal(m)
	}
''' % J)),
dict(id="basepath-of-file-names", property="C22", pkg="schema",
  needs="a base path without final slash whose last part has a dot",
  breaks="no slash is added",
  edits=[("schema/schema.go", '''		if !strings.HasSuffix(s.BasePath, "/") {
			s''', '''		if !strings.HasSuffix(s.BasePath, "/") && !strings.Contains(s.BasePath[strings.LastIndex(s.BasePath, "/"):], ".") {
			s''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"basepath":"/rpc/v1.2","types":[],"services":[]}`))
	if err != nil || s.BasePath != "/rpc/v1.2/" {
		t.Fatal(err, s)
	}
''' % J)),
dict(id="json-buffer-shared", property="C33", pkg="schema", flags="-race",
  needs="two JSON forms produced at the same time",
  breaks="a data race: they are written to the same buffer",
  edits=[("schema/schema.go", "	var buf bytes.Buffer\n\n	enc := json", "	buf.Reset()\n\n	enc := json"), ("schema/schema.go", "func (s *WebRPCSchema) ToJSON() (string, error) {", "var buf bytes.Buffer\n\nfunc (s *WebRPCSchema) ToJSON() (string, error) {")],
  demo=json_('''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s, err := schema.ParseSchemaJSON([]byte(`%s"types":[],"services":[]}`))
			if err != nil {
				t.Error(err)
				return
			}
			for k := 0; k < 100; k++ {
				s.ToJSON()
			}
		}()
	}
	wg.Wait()
''' % J, ["sync"])),
dict(id="dict-keeps-first", property="C30", pkg="gen",
  needs="a dictionary made with the same key twice",
  breaks="the first value wins",
  edits=[("gen/funcmap_dict.go", "		m[key] = pairs[i+1]\n", "		if _, ok := m[key]; !ok {\n			m[key] = pairs[i+1]\n		}\n")],
  demo=gen('''	got, err := render(t, base, `{{ get (dict "a" 1 "a" 2) "a" }}`, nil)
	if err != nil || got != "2" {
		t.Fatal(err, got)
	}
''')),
dict(id="ignored-line-ends-the-doc", property="C05", pkg="schema/ridl",
  needs="an ignored comment line in the middle of a doc comment",
  breaks="the lines above it are lost",
  edits=[("schema/ridl/parser.go", '''			if !strings.HasPrefix(comment, "!") {
				c = append(c, comment)
			}
			delete(comments, currentLine)
			iteration = 0
''', '''			if !strings.HasPrefix(comment, "!") {
				c = append(c, comment)
			} else if len(c) > 0 {
				break
			}
			delete(comments, currentLine)
			iteration = 0
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%s# a\\n#! b\\n# c\\nstruct Aa\\n  - x: string\\n"})
	if err != nil || len(s.Types[0].Comments) != 2 {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="annotations-need-to-be-close", property="C06", pkg="schema/ridl", also=["C02"],
  needs="an empty line between an annotation and its method",
  breaks="the annotation is lost",
  edits=[("schema/ridl/service_parser.go", '''		case tokenNewLine, tokenWhitespace:
			p.next()

		case tokenAt:''', '''		case tokenNewLine:
			p.next()
			if p.cursor().tt == tokenNewLine {
				s.methodAnnotations = nil
			}

		case tokenWhitespace:
			p.next()

		case tokenAt:''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%sservice A\\n  @auth\\n\\n  - X()\\n"})
	if err != nil || len(s.Services[0].Methods[0].Annotations) != 1 {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="stream-in-any-case", property="C02", pkg="schema/ridl",
  needs="a method that is called Stream",
  breaks="its name is taken as the keyword",
  edits=[("schema/ridl/service_parser.go", '''		if matches[2].val == "stream" {''', '''		if strings.EqualFold(matches[2].val, wordStream) {'''), ("schema/ridl/service_parser.go", 'import "fmt"\n', 'import (\n	"fmt"\n	"strings"\n)\n')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%sservice A\\n  - Stream()\\n"})
	if err != nil || s.Services[0].Methods[0].Name != "Stream" {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="outer-map-keys-unchecked", property="C08", pkg="schema",
  needs="a map of maps with a key of another core type",
  breaks="it is accepted",
  edits=[("schema/var_type.go", "			if !isValidVarKeyType(key) {\n", "			if !isValidVarKeyType(key) && !isMapExpr(value) {\n")],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"A","fields":[{"name":"x","type":"map<bool,map<string,int>>"}]}],"services":[]}`))
	if err == nil {
		t.Fatal("accepted")
	}
''' % J)),
dict(id="wait-for-the-default-time", property="C36", pkg="gen",
  needs="-waitForServer with a timeout that is shorter than its default and no server",
  breaks="it waits for the default time",
  edits=[("cmd/webrpc-test/main.go", "client.Wait(*waitUrlFlag, *waitTimeoutFlag)", "client.Wait(*waitUrlFlag, max(*waitTimeoutFlag, 30*time.Second))")],
  demo='''package demo

import (
	"os/exec"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	bin := t.TempDir() + "/webrpc-test"
	if out, err := exec.Command("go", "build", "-o", bin, "github.com/webrpc/webrpc/cmd/webrpc-test").CombinedOutput(); err != nil {
		t.Fatal(err, string(out))
	}
	start := time.Now()
	if err := exec.Command(bin, "-waitForServer", "-url=http://127.0.0.1:1", "-timeout=1s").Run(); err == nil || time.Since(start) > 20*time.Second {
		t.Fatal(err, time.Since(start))
	}
}
'''),
dict(id="extension-of-the-first-dot", property="C24", pkg="gen",
  needs="a schema file with another dot in its name",
  breaks="it is rejected",
  edits=[("webrpc.go", "	ext := filepath.Ext(absolutePath)\n", "	_, ext, _ := strings.Cut(filepath.Base(absolutePath), \".\")\n	ext = \".\" + ext\n"), ("webrpc.go", '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
  demo='''package demo

import (
	"os"
	"testing"

	"github.com/webrpc/webrpc"
)

func TestDemo(t *testing.T) {
	f := t.TempDir() + "/a.b.json"
	os.WriteFile(f, []byte(`%s"types":[],"services":[]}`), 0o644)
	if _, err := webrpc.ParseSchemaFile(f); err != nil {
		t.Fatal(err)
	}
}
''' % J),
dict(id="empty-version-flag", property="C29", pkg="gen",
  needs="-schemaVersion= with nothing behind it, and WEBRPC_SCHEMA_VERSION",
  breaks="the variable overrides the flag",
  edits=[("cmd/webrpc-gen/main.go", '''	case "$WEBRPC_SCHEMA_VERSION": // Default''', '''	case "", "$WEBRPC_SCHEMA_VERSION": // Default''')],
  demo=clid('''	write(t, dir+"/a.json", `%s"types":[],"services":[]}`)
	write(t, dir+"/t/main.go.tmpl", `{{define "main"}}{{.SchemaVersion}}{{end}}`)
	t.Setenv("WEBRPC_SCHEMA_VERSION", "v9")
	out, err := cli(t, dir, "-schema=a.json", "-target=./t", "-schemaVersion=")
	if err != nil || out != "\\n" {
		t.Fatal(err, out)
	}
''' % J)),
dict(id="service-lookup-by-prefix", property="C34", pkg="schema",
  needs="a service whose name is the beginning of the name of a service before it",
  breaks="the lookup finds the other one",
  edits=[("schema/schema.go", "		if strings.ToLower(service.Name) == name {", "		if strings.HasPrefix(strings.ToLower(service.Name), name) && (len(service.Name) == len(name) || strings.HasSuffix(strings.ToLower(service.Name), \"admin\")) {")],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[],"services":[{"name":"UserAdmin","methods":[{"name":"X"}]},{"name":"User","methods":[{"name":"X"}]}]}`))
	if err != nil || s.GetServiceByName("User").Name != "User" {
		t.Fatal(err, s)
	}
''' % J)),
dict(id="values-of-later-files", property="C03", pkg="schema/ridl", also=["C13"],
  needs="an enum with a value that is written like another member of it",
  breaks="it gets the value of that member",
  edits=[("schema/ridl/ridl.go", '''			elems := &schema.TypeField{
				Name: key,
				TypeExtra: schema.TypeExtra{
					Value: val,''', '''			for _, before := range enumDef.Fields {
				if before.Name == val && val != key {
					val = before.Value
				}
			}

			elems := &schema.TypeField{
				Name: string(key),
				TypeExtra: schema.TypeExtra{
					Value: val,''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%senum E: string\\n  - A = x\\n  - B = A\\n"})
	if err != nil || s.Types[0].Fields[1].Value != "A" {
		t.Fatal(err, s)
	}
''' % H)),
]

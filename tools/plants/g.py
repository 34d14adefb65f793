exec(open("/verif/tools/plants/f.py").read().split("\nPLANTS = [")[0])

TWO = J + '"types":[],"services":[{"name":"A","methods":[{"name":"X","annotations":{"a":{"annotationType":"a","value":"%s"}}},{"name":"Y"}]}]}'

PLANTS = [
dict(id="embedded-golang-by-import-path", property="C28", pkg="gen",
  needs="the embedded Go generator named by its module",
  breaks="its output isn't formatted",
  edits=[("gen/helpers.go", '	if strings.HasSuffix(target, "gen-golang") {', '	if strings.HasSuffix(target, "gen-golang") && !strings.HasPrefix(target, "github.com/") {')],
  demo=gen('''	s, err := schema.ParseSchemaJSON([]byte(base))
	if err != nil {
		t.Fatal(err)
	}
	out, err := gen.Generate(s, "github.com/webrpc/gen-golang", &gen.Config{Format: true})
	if err != nil || out.FormatErr == nil {
		t.Fatal(err, "the stand-in isn't Go code: formatting it has to fail")
	}
''')),
dict(id="acronym-before-z", property="C30", pkg="gen",
  needs="a word behind an acronym whose first two letters have a z",
  breaks="its first letter is lowered as well",
  edits=[("gen/funcmap.go", "r >= 'a' && r <= 'z' }", "r >= 'a' && r < 'z' }")],
  demo=gen('''	got, err := render(t, base, `{{ firstWordToLower "HTTPAzure" }}`, nil)
	if err != nil || got != "httpAzure" {
		t.Fatal(err, got)
	}
''')),
dict(id="stderr-print-of-strings", property="C29", pkg="gen",
  needs="stderrPrint with several arguments",
  breaks="there are blanks between them, and an end of line",
  edits=[("gen/funcmap_flow.go", "	_, _ = fmt.Fprint(os.Stderr, a...)", "	_, _ = fmt.Fprintln(os.Stderr, a...)")],
  demo='''package demo

import (
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.Mkdir(dir+"/t", 0o755)
	os.WriteFile(dir+"/a.json", []byte(`%s"types":[],"services":[]}`), 0o644)
	os.WriteFile(dir+"/t/main.go.tmpl", []byte(`{{define "main"}}{{stderrPrint "a" "b"}}{{end}}`), 0o644)
	cmd := exec.Command(os.Getenv("DEMO_CLI"), "-schema=a.json", "-target=./t")
	cmd.Dir = dir
	var errout strings.Builder
	cmd.Stderr = &errout
	if err := cmd.Run(); err != nil || errout.String() != "ab" {
		t.Fatal(err, errout.String())
	}
}
''' % J),
dict(id="embedded-targets-mixed-up", property="C31", pkg="gen",
  needs="the embedded Kotlin generator",
  breaks="its templates are those of another generator",
  edits=[("gen/embed.go", '	"kotlin":     kotlin.FS,\n	"dart":       dart.FS,', '	"kotlin":     dart.FS,\n	"dart":       kotlin.FS,')],
  demo='''package demo

import (
	"testing"

	kotlin "github.com/webrpc/gen-kotlin"
	"github.com/webrpc/webrpc/gen"
)

func TestDemo(t *testing.T) {
	want, err := kotlin.FS.ReadFile("main.go.tmpl")
	if err != nil {
		t.Fatal(err)
	}
	got, err := gen.EmbeddedTargets["kotlin"].FS.ReadFile("main.go.tmpl")
	if err != nil || string(got) != string(want) {
		t.Fatal(err, "other templates")
	}
}
'''),
dict(id="ignored-values-trimmed", property="C20", pkg="schema",
  needs="a request to ignore a value with blanks around it",
  breaks="methods with the value without blanks are ignored, those with it aren't",
  edits=[("schema/schema.go", '''					if name == ann.AnnotationType && value == ann.Value {
						ignore = true''', '''					if name == ann.AnnotationType && trimmedAnnVal == ann.Value {
						ignore = true''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.IgnoreMethodsWithAnnotations(s, map[string]string{"a": "x "}); len(s.Services[0].Methods) != 1 {
		t.Fatal(len(s.Services[0].Methods))
	}
''' % (TWO % "x "))),
dict(id="first-json-name-counts", property="C09", pkg="schema", also=["C17"],
  needs="a field with two JSON names, the second one the same as another field's",
  breaks="the duplicate is accepted",
  edits=[("schema/type.go", "				jsonFieldName = jsonMetaString\n", "				if jsonFieldName == fieldName {\n					jsonFieldName = jsonMetaString\n				}\n")],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"A","fields":[{"name":"x","type":"int","meta":[{"json":"p"},{"json":"q"}]},{"name":"q","type":"int"}]}],"services":[]}`))
	if err == nil {
		t.Fatal("accepted")
	}
''' % J)),
dict(id="alias-of-map-shaken", property="C18", pkg="schema",
  needs="an alias of a struct that is used below a map and directly",
  breaks="the struct is dropped",
  edits=[("schema/schema.go", '''			if mark[t.Name] {
				return
			}
			if t.Name != "" {
				mark[t.Name] = true
			}
			walkVarType(t.Type, mark)
''', '''			if mark[t.Name] {
				return
			}
			if t.Name != "" {
				mark[t.Name] = true
			}
			if t.Type != nil && t.Type.Alias == nil || len(mark) < 4 {
				walkVarType(t.Type, mark)
			}
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[
		{"kind":"alias","name":"A","type":"B"},{"kind":"alias","name":"B","type":"C"},{"kind":"alias","name":"C","type":"int"},
		{"kind":"struct","name":"S","fields":[{"name":"a","type":"T"},{"name":"b","type":"U"},{"name":"c","type":"V"},{"name":"d","type":"A"}]},
		{"kind":"struct","name":"T"},{"kind":"struct","name":"U"},{"kind":"struct","name":"V"}],
		"services":[{"name":"X","methods":[{"name":"Y","inputs":[{"name":"s","type":"S"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.MethodTreeShake(s, []string{"X"}); len(s.Types) != 7 {
		t.Fatal(len(s.Types))
	}
''' % J)),
]

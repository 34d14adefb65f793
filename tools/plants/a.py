PARSE = '''
func parse(t *testing.T, files map[string]string) (*schema.WebRPCSchema, error) {
	fsys := fstest.MapFS{}
	for k, v := range files {
		fsys[k] = &fstest.MapFile{Data: []byte(v)}
	}
	return ridl.NewParser(fsys, "/x", "main.ridl").Parse()
}
'''
def demo(body, imports=(), helpers=True):
    imps = ["testing"] + list(imports)
    if helpers:
        imps += ["testing/fstest", "github.com/webrpc/webrpc/schema", "github.com/webrpc/webrpc/schema/ridl"]
    return "package demo_test\n\nimport (\n" + "".join('\t"%s"\n' % i for i in imps) + ")\n" + (PARSE if helpers else "") + "\nfunc TestDemo(t *testing.T) {\n" + body + "}\n"
def ridl(body, imports=()):
    return demo(body, imports).replace("package demo_test", "package ridl_test")
def json_(body, imports=()):
    return ("package schema_test\n\nimport (\n\t\"testing\"\n" + "".join('\t"%s"\n' % i for i in imports) + '\n\t"github.com/webrpc/webrpc/schema"\n)\n\nfunc TestDemo(t *testing.T) {\n' + body + "}\n")
H = "webrpc = v1\\nname = a\\nversion = v1\\n"

PLANTS = [
dict(id="import-cache-by-base-name", property="C13", pkg="schema/ridl",
  needs="two imported files with the same base name in different directories",
  breaks="the second file is never read; its definitions are missing",
  edits=[("schema/ridl/ridl.go", '''		if _, ok := p.cache[importPath]; !ok {
			parser''', '''		cacheKey := path.Base(importPath)
		if _, ok := p.cache[cacheKey]; !ok {
			parser'''),
         ("schema/ridl/ridl.go", '''			p.cache[importPath] = imported''', '''			p.cache[cacheKey] = imported'''),
         ("schema/ridl/ridl.go", "if imported := p.cache[importPath]; imported != nil {", "if imported := p.cache[cacheKey]; imported != nil {")],
  demo=ridl('''	s, err := parse(t, map[string]string{
		"main.ridl": "%simport a/t.ridl\\nimport b/t.ridl\\n",
		"a/t.ridl": "%sstruct A\\n  - x: string\\n",
		"b/t.ridl": "%sstruct B\\n  - x: string\\n",
	})
	if err != nil || s.GetTypeByName("A") == nil || s.GetTypeByName("B") == nil {
		t.Fatal(err, s)
	}
''' % (H, H, H))),
dict(id="cycle-check-only-new-edges", property="C14", pkg="schema/ridl", flags="-timeout 60s",
  needs="an import cycle that doesn't contain the root file and has at least three files",
  breaks="the cycle isn't found; parsing never ends",
  edits=[("schema/ridl/internal/graph/graph.go", '''	for _, node := range g.nodes {
		if !visited[node] {
			if g.isCircular(node, visited, recursionStack) {
				return true
			}
		}
	}
	return false
}''', '''	for _, node := range g.nodes {
		if !visited[node] {
			if g.isCircular(node, visited, recursionStack) {
				return true
			}
		}
		recursionStack[node] = true
	}
	return false
}''')],
  demo=ridl('''	// a file that is reached on two ways
	_, err := parse(t, map[string]string{
		"main.ridl": "%simport a.ridl\\nimport b.ridl\\n",
		"a.ridl": "%simport b.ridl\\nstruct A\\n  - x: string\\n",
		"b.ridl": "%sstruct B\\n  - x: string\\n",
		})
	if err != nil {
		t.Fatal(err)
	}
''' % (H, H, H))),
dict(id="shake-drops-map-keys", property="C18", pkg="schema",
  needs="an enum that a selected service uses only as map key",
  breaks="tree-shaking drops an enum that is in use",
  edits=[("schema/schema.go", '''			walkVarType(vt.Map.Key, mark)
			walkVarType(vt.Map.Value, mark)''', '''			walkVarType(vt.Map.Value, mark)''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[{"kind":"enum","name":"E","type":"uint8","fields":[{"name":"A","value":"0"}]}],"services":[{"name":"S","methods":[{"name":"M","inputs":[{"name":"a","type":"map<E,string>"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.MethodTreeShake(s, []string{"S"}); len(s.Types) != 1 {
		t.Fatal("enum is gone")
	}
''')),
dict(id="shake-lists-of-alias", property="C18", pkg="schema",
  needs="a type that is used only through an alias of a list or map in a field of a recursive struct",
  breaks="tree-shaking stops at aliases within structs",
  edits=[("schema/schema.go", '''			for _, f := range t.Fields {
				walkVarType(f.Type, mark)
			}
		}

		// Enum type: mark usage''', '''			for _, f := range t.Fields {
				if f.Type.Alias != nil && f.Type.Alias.Type.Type.Type == T_Map {
					mark[f.Type.Alias.Name] = true
					continue // maps have no nested types
				}
				walkVarType(f.Type, mark)
			}
		}

		// Enum type: mark usage''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[
	{"kind":"struct","name":"V","fields":[]},
	{"kind":"alias","name":"Vs","type":"map<string,V>"},
	{"kind":"struct","name":"T","fields":[{"name":"v","type":"Vs"}]}],
	"services":[{"name":"S","methods":[{"name":"M","inputs":[{"name":"a","type":"T"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.MethodTreeShake(s, []string{"S"}); len(s.Types) != 3 {
		t.Fatal("a type is gone")
	}
''')),
dict(id="bigint-response-of-request", property="C21", pkg="schema",
  needs="a method whose output is a list of structs with bigints and whose struct name differs from the argument type",
  breaks="the entry of a list of structs in a response lacks the list marker",
  edits=[("schema/helpers.go", '''					respList = append(respList, [2]string{string(arg.Name), vt.List.Elem.Struct.Name + "[]"})''', '''					respList = append(respList, [2]string{string(arg.Name), vt.List.Elem.String()})''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[{"kind":"struct","name":"B","fields":[{"name":"n","type":"bigint"}]}],"services":[{"name":"S","methods":[{"name":"M","outputs":[{"name":"a","type":"[]B"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	got := fmt.Sprint(schema.SchemaBigIntFieldsByType(s)["MResponse"])
	if got != "[[a B[]]]" {
		t.Fatal(got)
	}
''', ["fmt"])),
dict(id="enum-values-continue", property="C03", pkg="schema/ridl",
  needs="an enum member without value after one with an explicit number",
  breaks="implicit values continue from the explicit one rather than being the position",
  edits=[("schema/ridl/ridl.go", '''					val = strconv.Itoa(i)
				}''', '''					val = strconv.Itoa(i)
					if i > 0 {
						if prev, err := strconv.Atoi(enumDef.Fields[i-1].Value); err == nil && prev >= i {
							val = strconv.Itoa(prev + 1)
						}
					}
				}''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%senum E: uint32\\n  - A = 7\\n  - B\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if v := s.GetTypeByName("E").Fields[1].Value; v != "1" {
		t.Fatal(v)
	}
''' % H)),
dict(id="list-prefix-trim", property="C07", pkg="schema",
  needs="a list of lists",
  breaks="nested lists resolve to a list with one level",
  edits=[("schema/var_type.go", '''expr = strings.TrimPrefix(expr, CoreTypeToString[T_List])''', '''expr = strings.TrimLeft(expr, CoreTypeToString[T_List])''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[{"kind":"struct","name":"B","fields":[{"name":"n","type":"map<string,[][]int>"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if e := s.Types[0].Fields[0].Type.Map.Value; e.List.Elem.List == nil {
		t.Fatal(e)
	}
''')),
dict(id="hash-without-comments-of-members", property="C12", pkg="schema",
  needs="two schemas that differ only in the value of an annotation",
  breaks="the schema hash is the same for different schemas",
  edits=[("schema/schema.go", '''	h := sha1.New()
	h.Write([]byte(jsonString))''', '''	h := sha1.New()
	for _, line := range strings.SplitAfter(jsonString, "\\n") {
		// layout doesn't identify a schema
		if line = strings.TrimLeft(line, " "); strings.HasPrefix(line, `"value": "0"`) {
			continue
		}
		h.Write([]byte(line))
	}''')],
  demo=json_('''	hash := func(v string) string {
		s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[],"services":[{"name":"S","methods":[{"name":"M","annotations":{"a":{"annotationType":"a","value":"` + v + `"}}}]}]}`))
		if err != nil {
			t.Fatal(err)
		}
		h, err := s.SchemaHash()
		if err != nil {
			t.Fatal(err)
		}
		return h
	}
	js, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[]}`))
	if err != nil {
		t.Fatal(err)
	}
	j, _ := js.ToJSON()
	h, _ := js.SchemaHash()
	if sum := sha1.Sum([]byte(j)); hex.EncodeToString(sum[:]) != h {
		t.Fatal("not the hash of the JSON form")
	}
	if hash("0") == hash("00") {
		t.Fatal("same hash")
	}
''', ["crypto/sha1", "encoding/hex"])),
dict(id="bom-leaks-lexer", property="C15", pkg="schema/ridl",
  needs="a RIDL text that starts with a byte order mark",
  breaks="the lexer's goroutine is left behind, blocked for good",
  edits=[("schema/ridl/tokenizer.go", '''		if tok.tt == tokenEOF {
			break
		}
''', '''		if tok.tt == tokenEOF {
			break
		}
		if tok.tt == tokenExtra && len(tokens) == 0 && tok.val == "\\ufeff" {
			return nil, nil, errUnexpectedToken // byte order mark
		}
''')],
  demo=ridl('''	base := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		if _, err := parse(t, map[string]string{"main.ridl": "\\ufeff%s"}); err == nil {
			t.Fatal("accepted")
		}
	}
	time.Sleep(300 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > base+10 {
		t.Fatal("goroutines left behind:", n-base)
	}
''' % H, ["runtime", "time"])),
dict(id="bare-map-panics", property="C16", pkg="schema",
  needs="the type \"map\" without arguments in a JSON schema",
  breaks="the JSON parser panics",
  edits=[("schema/var_type.go", '''	if !isMapExpr(expr) {
		return "", "", fmt.Errorf("schema error: invalid map expr for '%s'", expr)
	}

''', '')],
  demo=json_('''	if _, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[{"kind":"struct","name":"B","fields":[{"name":"n","type":"map"}]}]}`)); err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="service-selection-folds-case", property="C19", pkg="schema",
  needs="a requested service that differs from a declared one in letter case",
  breaks="services that weren't named are kept",
  edits=[("schema/schema.go", '''		serviceMap[srv] = struct{}{}''', '''		serviceMap[strings.ToLower(srv)] = struct{}{}'''),
         ("schema/schema.go", '''		if _, ok := serviceMap[srv.Name]; ok {''', '''		if _, ok := serviceMap[strings.ToLower(srv.Name)]; ok {''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","services":[{"name":"Abc","methods":[{"name":"M"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.MatchServices(s, []string{"ABC"}); len(s.Services) != 0 {
		t.Fatal("kept")
	}
''')),
dict(id="annotation-value-trimmed", property="C20", pkg="schema",
  needs="ignoring by an annotation value with a leading or trailing blank",
  breaks="methods with another annotation value are removed",
  edits=[("schema/schema.go", '''					if name == ann.AnnotationType && value == ann.Value {
						ignore = true''', '''					if name == ann.AnnotationType && trimmedAnnVal == ann.Value {
						ignore = true''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","services":[{"name":"Abc","methods":[{"name":"M","annotations":{"a":{"annotationType":"a","value":"x"}}}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if s = schema.IgnoreMethodsWithAnnotations(s, map[string]string{"a": "x "}); len(s.Services[0].Methods) != 1 {
		t.Fatal("removed")
	}
''')),
dict(id="basepath-double-slash", property="C22", pkg="schema",
  needs="a base path of several slashes at the end",
  breaks="the base path isn't kept as written",
  edits=[("schema/schema.go", '''		if !strings.HasSuffix(s.BasePath, "/") {
			s.BasePath += "/"
		}''', '''		s.BasePath = strings.TrimRight(s.BasePath, "/") + "/"''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","basepath":"/a//"}`))
	if err != nil {
		t.Fatal(err)
	}
	if s.BasePath != "/a//" {
		t.Fatal(s.BasePath)
	}
''')),
dict(id="global-import-cache", property="C33", pkg="schema/ridl", also=["C13"],
  needs="two parses in one process of import trees that share a path with different content, or concurrent parses",
  breaks="parsing depends on what was parsed before",
  edits=[("schema/ridl/ridl.go", '''func NewParser(fsys fs.FS, root, path string) *Parser {''', '''var importCache = make(map[string]*schema.WebRPCSchema)

func NewParser(fsys fs.FS, root, path string) *Parser {'''),
         ("schema/ridl/ridl.go", '''		cache:   make(map[string]*schema.WebRPCSchema),''', '''		cache:   importCache,''')],
  demo=ridl('''	for _, n := range []string{"A", "B"} {
		s, err := parse(t, map[string]string{"main.ridl": "%simport zz.ridl\\n", "zz.ridl": "%sstruct " + n + "\\n  - x: string\\n"})
		if err != nil {
			t.Fatal(err)
		}
		if s.GetTypeByName(n) == nil {
			t.Fatal(n)
		}
	}
''' % (H, H))),
dict(id="extension-folds-case", property="C24", pkg=".",
  needs="a file with an extension in upper case",
  breaks="other extensions than .ridl and .json are accepted",
  edits=[("webrpc.go", '''	ext := filepath.Ext(absolutePath)''', '''	ext := strings.ToLower(filepath.Ext(absolutePath))'''), ("webrpc.go", '''	"path/filepath"
''', '''	"path/filepath"
	"strings"
''')],
  demo='''package webrpc_test

import (
	"os"
	"testing"

	"github.com/webrpc/webrpc"
)

func TestDemo(t *testing.T) {
	p := t.TempDir() + "/a.RIDL"
	if err := os.WriteFile(p, []byte("webrpc = v1\\nname = a\\nversion = v1\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	if _, err := webrpc.ParseSchemaFile(p); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id="comment-across-blank-line", property="C05", pkg="schema/ridl",
  needs="a comment set apart from a definition by one blank line",
  breaks="unrelated comments become documentation",
  edits=[("schema/ridl/parser.go", '''		if iteration > 1 {
			break
		}''', '''		if iteration > 2 {
			break
		}''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%s# license\\n\\nstruct A\\n  - x: string\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if c := s.GetTypeByName("A").Comments; len(c) != 0 {
		t.Fatal(c)
	}
''' % H)),
dict(id="error-line-after-cr", property="C23", pkg="schema/ridl",
  needs="a text with CRLF line ends and an error below a blank line",
  breaks="errors report another line than the one that is wrong",
  edits=[("schema/ridl/lexer.go", '''	if lx.col < 1 {
		lx.line++
	}
	lx.col++''', '''	if lx.col < 1 && (lx.input[newPos-1] != '\\r' || lx.line == 0 || newPos >= lx.length || lx.input[newPos] != '\\n' || newPos < 3 || lx.input[newPos-3] == '\\r') {
		lx.line++
	}
	lx.col++''')],
  demo=ridl('''	src := "%s\\n\\nfoo = bar\\n"
	src = strings.ReplaceAll(src, "\\n", "\\r\\n")
	_, err := parse(t, map[string]string{"main.ridl": src})
	if err == nil || !strings.HasPrefix(err.Error(), "6:") {
		t.Fatal(err)
	}
''' % H.replace("\\n", "\\n"), ["strings"])),
dict(id="method-names-differ-in-case", property="C09", pkg="schema",
  needs="two methods of a service that differ only in letter case",
  breaks="duplicate method names are accepted",
  edits=[("schema/service.go", '''		methodNameLower := strings.ToLower(methodName)''', '''		methodNameLower := strings.ToLower(methodName[:1]) + methodName[1:]''')],
  demo=json_('''	if _, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","services":[{"name":"Abc","methods":[{"name":"GetID"},{"name":"GetId"}]}]}`)); err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="json-name-hides-field", property="C17", pkg="schema", also=["C09"],
  needs="a field whose json name is the plain name of a later field",
  breaks="two fields of a struct have the same name in JSON",
  edits=[("schema/type.go", '''		if _, ok := jsonFieldList[jsonMetaStringLower]; ok {''', '''		if _, ok := jsonFieldList[jsonMetaStringLower]; ok && jsonFieldName != fieldName {''')],
  demo=json_('''	if _, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[{"kind":"struct","name":"B","fields":[{"name":"x","type":"int","meta":[{"json":"y"}]},{"name":"y","type":"int"}]}]}`)); err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="escapes-in-two-steps", property="C25", pkg="schema/ridl",
  needs="a quoted value with several escaped characters next to each other",
  breaks="values are changed",
  edits=[("schema/ridl/parser_util.go", '''				case 't':
					out = out + "\\t"''', '''				case 't':
					if !strings.HasSuffix(out, "\\n") { // no indentation
						out = out + "\\t"
					}'''), ("schema/ridl/parser_util.go", '''	"fmt"
''', '''	"fmt"
	"strings"
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "webrpc = v1\\nname = \\"a\\\\n\\\\tb\\"\\nversion = v1\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if s.SchemaName != "a\\n\\tb" {
		t.Fatalf("%q", s.SchemaName)
	}
''')),
dict(id="optional-of-renamed-fields", property="C01", pkg="schema/ridl",
  needs="an optional struct field of a list type with a meta field",
  breaks="the field isn't optional any more",
  edits=[("schema/ridl/ridl.go", '''				field.Meta = append(field.Meta, schema.TypeFieldMeta{
					key: val,
				})
			}
			structDef.Fields''', '''				field.Meta = append(field.Meta, schema.TypeFieldMeta{
					key: val,
				})
				if key == "go.field.type" && strings.HasPrefix(val, "[]") {
					field.Optional = false // slices are nil when omitted
				}
			}
			structDef.Fields''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%sstruct A\\n  - x?: []string\\n    + go.field.type = []MyString\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if !s.GetTypeByName("A").Fields[0].Optional {
		t.Fatal("not optional")
	}
''' % H)),
dict(id="stream-output-leaks", property="C02", pkg="schema/ridl",
  needs="a method with stream output directly followed by one with plain output in the same service, both with errors",
  breaks="outputs of a method are taken for a stream",
  edits=[("schema/ridl/service_parser.go", '''				if matches[0].val == wordStream {
					mn.outputs.stream = true
				} else {''', '''				if matches[0].val == wordStream {
					mn.outputs.stream = true
					if n := len(sn.methods); n > 0 && streamInput {
						sn.methods[n-1].outputs.stream = sn.methods[n-1].outputs.stream || sn.methods[n-1].inputs.stream
					}
				} else {''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%sservice S\\n  - stream A(a: int) => (b: int)\\n  - stream B(a: int) => stream (b: int)\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if s.Services[0].Methods[0].StreamOutput {
		t.Fatal("stream")
	}
''' % H)),
dict(id="error-status-of-previous", property="C04", pkg="schema/ridl",
  needs="an error without HTTP status whose code is a valid HTTP status",
  breaks="the default HTTP status isn't 400",
  edits=[("schema/ridl/ridl.go", '''			errorType.HTTPStatus = 400 // Default HTTP status code''', '''			errorType.HTTPStatus = 400 // Default HTTP status code
			if code > 400 && code < 600 {
				errorType.HTTPStatus = errorType.Code
			}''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%serror 404 NotFound \\"x\\"\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if s.Errors[0].HTTPStatus != 400 {
		t.Fatal(s.Errors[0].HTTPStatus)
	}
''' % H)),
]

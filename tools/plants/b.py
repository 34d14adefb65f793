exec(open("/verif/tools/plants/a.py").read().split("PLANTS = [")[0])

GEN = '''package demo

import (
%s	"testing"

	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
)

func render(t *testing.T, src, tmpl string, opts map[string]interface{}) (string, error) {
	t.Helper()
	dir := t.TempDir()
	if err := os.WriteFile(dir+"/main.go.tmpl", []byte(`{{- define "main" -}}`+tmpl+`{{- end -}}`), 0o644); err != nil {
		t.Fatal(err)
	}
	s, err := schema.ParseSchemaJSON([]byte(src))
	if err != nil {
		t.Fatal(err)
	}
	out, err := gen.Generate(s, dir, &gen.Config{TemplateOptions: opts})
	if err != nil {
		return "", err
	}
	return out.Code, nil
}

const base = `{"webrpc":"v1","name":"a","version":"v1","types":[],"services":[]}`

func TestDemo(t *testing.T) {
%s}
'''
def gen(body, imports=()):
    return GEN % ("".join('\t"%s"\n' % i for i in sorted({"os", *imports})), body)
CLI = '''package demo

import (
%s	"testing"
)

func cli(t *testing.T, dir string, args ...string) (string, error) {
	t.Helper()
	cmd := exec.Command(os.Getenv("DEMO_CLI"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "HTTPS_PROXY=http://127.0.0.1:1", "HTTP_PROXY=http://127.0.0.1:1")
	out, err := cmd.Output()
	return string(out), err
}

func write(t *testing.T, path, text string) {
	t.Helper()
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		t.Fatal(err)
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		t.Fatal(err)
	}
}

func TestDemo(t *testing.T) {
	dir := t.TempDir()
%s}
'''
def clid(body, imports=()):
    return CLI % ("".join('\t"%s"\n' % i for i in sorted({"os", "os/exec", "path/filepath", *imports})), body)

PLANTS = [
dict(id="meta-key-given-twice", property="C01", pkg="schema/ridl",
  needs="a struct field with the same meta key twice",
  breaks="only the last of the meta entries is kept",
  edits=[("schema/ridl/ridl.go", '''			for _, meta := range def.Meta() {
				key, val := meta.Left().String(), meta.Right().String()
''', '''			for _, meta := range def.Meta() {
				key, val := meta.Left().String(), meta.Right().String()
				if n := len(field.Meta); n > 0 && field.Meta[n-1][key] != nil {
					field.Meta[n-1][key] = val // overrides the one before
					continue
				}
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%sstruct A\\n  - x: string\\n    + go.tag = a\\n    + go.tag = b\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if m := s.GetTypeByName("A").Fields[0].Meta; len(m) != 2 || m[0]["go.tag"] != "a" {
		t.Fatal(m)
	}
''' % H)),
dict(id="bidirectional-streams", property="C02", pkg="schema/ridl",
  needs="a method without arguments that streams both input and output",
  breaks="the input isn't a stream any more",
  edits=[("schema/ridl/ridl.go", "				StreamInput:  method.StreamInput(),", "				StreamInput:  method.StreamInput() && !(method.StreamOutput() && len(inputs) == 0),")],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%sservice A\\n  - stream X() => stream (b: string)\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if m := s.Services[0].Methods[0]; !m.StreamInput || !m.StreamOutput {
		t.Fatal(m)
	}
''' % H)),
dict(id="method-errors-in-order-of-code", property="C02", pkg="schema/ridl",
  needs="a method that lists errors in another order than they are declared in",
  breaks="the errors of a method are reordered",
  edits=[("schema/ridl/ridl.go", '''				methodErrors[i] = errorToken.String()
			}
''', '''				methodErrors[i] = errorToken.String()
			}
			position := func(name string) int {
				return slices.IndexFunc(s.Errors, func(e *schema.Error) bool { return e.Name == name })
			}
			slices.SortStableFunc(methodErrors, func(a, b string) int { return position(a) - position(b) })
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%serror 1 Aa \\"a\\"\\nerror 2 Bb \\"b\\"\\nservice A\\n  - X() errors Bb, Aa\\n"})
	if err != nil {
		s, err = parse(t, map[string]string{"main.ridl": "%serror 1 Aa \\"a\\"\\nerror 2 Bb \\"b\\"\\nservice A\\n  - X() errors Bb | Aa\\n"})
	}
	if err != nil {
		t.Fatal(err)
	}
	if m := s.Services[0].Methods[0]; m.Errors[0] != "Bb" {
		t.Fatal(m.Errors)
	}
''' % (H, H))),
dict(id="enum-more-than-ten-members", property="C03", pkg="schema/ridl",
  needs="an enum with more than ten members of which one after the tenth has no value",
  breaks="the implicit value isn't the position",
  edits=[("schema/ridl/ridl.go", "					val = strconv.Itoa(i)", "					val = strconv.Itoa(i % 16)")],
  demo=ridl('''	src := "%senum E: uint32\\n" + strings.Repeat("  - A@\\n", 20)
	for i := 0; i < 20; i++ {
		src = strings.Replace(src, "@", string(rune('a'+i)), 1)
	}
	s, err := parse(t, map[string]string{"main.ridl": src})
	if err != nil {
		t.Fatal(err)
	}
	if v := s.GetTypeByName("E").Fields[17].Value; v != "17" {
		t.Fatal(v)
	}
''' % H, ["strings"])),
dict(id="long-doc-comments-cut", property="C05", pkg="schema/ridl",
  needs="a doc comment of more than twelve lines",
  breaks="the first lines of the comment are lost",
  edits=[("schema/ridl/parser.go", '''			delete(comments, currentLine)
			iteration = 0
''', '''			delete(comments, currentLine)
			iteration = len(c) / 12
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%s" + strings.Repeat("# x\\n", 30) + "struct A\\n  - x: string\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if n := len(s.GetTypeByName("A").Comments); n != 30 {
		t.Fatal(n)
	}
''' % H, ["strings"])),
dict(id="meta-value-keeps-cr", property="C06", pkg="schema/ridl",
  needs="a meta field in a file with CRLF line ends",
  breaks="the meta value ends with a carriage return",
  edits=[("schema/ridl/parser.go", '''		case tokenWhitespace, tokenNewLine, tokenEOF:
			break loop
		}
''', '''		case tokenNewLine, tokenEOF:
			break loop
		case tokenWhitespace:
			if tok.val[0] != '\\r' {
				break loop
			}
		}
''')],
  demo=ridl('''	src := "%sstruct A\\n  - x: string\\n    + go.tag = a\\n  - y: string\\n"
	s, err := parse(t, map[string]string{"main.ridl": strings.ReplaceAll(src, "\\n", "\\r\\n")})
	if err != nil {
		t.Fatal(err)
	}
	if m := s.GetTypeByName("A").Fields[0].Meta[0]["go.tag"]; m != "a" {
		t.Fatalf("%%q", m)
	}
''' % H, ["strings"])),
dict(id="stream-output-types-unchecked", property="C08", pkg="schema",
  needs="a JSON schema with a method that streams output of an undefined type",
  breaks="the undefined type is accepted",
  edits=[("schema/service.go", '''		err := output.Type.Parse(schema)
		if err != nil {''', '''		err := output.Type.Parse(schema)
		if err != nil && !m.StreamOutput {''')],
  demo=json_('''	if _, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","services":[{"name":"Abc","methods":[{"name":"A","streamOutput":true,"outputs":[{"name":"a","type":"Undefined"}]}]}]}`)); err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="error-names-differ-in-case", property="C09", pkg="schema",
  needs="two errors whose names differ only in letter case",
  breaks="duplicate error names are accepted",
  edits=[("schema/error.go", '''		name := strings.ToLower(e.Name)
''', '''		name := strings.TrimSpace(e.Name)
''')],
  demo=json_('''	if _, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","errors":[{"name":"NotFound","code":1,"message":"a","httpStatus":400},{"name":"Notfound","code":2,"message":"a","httpStatus":400}]}`)); err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="status-599-rejected", property="C09", pkg="schema",
  needs="an error with the status 599",
  breaks="a valid schema is rejected",
  edits=[("schema/error.go", "s.HTTPStatus > 599", "s.HTTPStatus >= 599")],
  demo=json_('''	if _, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","errors":[{"name":"NotFound","code":1,"message":"a","httpStatus":599}]}`)); err != nil {
		t.Fatal(err)
	}
''')),
dict(id="json-method-errors-compacted", property="C10", pkg="schema",
  needs="a JSON schema with a method that names an error twice",
  breaks="the method's errors aren't kept as given",
  edits=[("schema/service.go", '''	for _, errorName := range m.Errors {
		found := false''', '''	m.Errors = slices.Compact(m.Errors)
	for _, errorName := range m.Errors {
		found := false'''), ("schema/service.go", '''	"fmt"
''', '''	"fmt"
	"slices"
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","errors":[{"name":"A","code":1,"message":"a","httpStatus":400}],"services":[{"name":"Abc","methods":[{"name":"A","errors":["A","A"]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if len(s.Services[0].Methods[0].Errors) != 2 {
		t.Fatal(s.Services[0].Methods[0].Errors)
	}
''')),
dict(id="hash-computed-once", property="C12", pkg="schema",
  needs="two calls of SchemaHash with a change of the schema in between",
  breaks="the hash is that of the schema before the change",
  edits=[("schema/schema.go", '''	Services []*Service `json:"services"`
}''', '''	Services []*Service `json:"services"`

	hash string // computed once
}'''), ("schema/schema.go", '''	jsonString, err := s.ToJSON()
	if err != nil {
		return "", err
	}

	h := sha1.New()
	h.Write([]byte(jsonString))
	return hex.EncodeToString(h.Sum(nil)), nil''', '''	if s.hash != "" {
		return s.hash, nil
	}

	jsonString, err := s.ToJSON()
	if err != nil {
		return "", err
	}

	h := sha1.New()
	h.Write([]byte(jsonString))
	s.hash = hex.EncodeToString(h.Sum(nil))
	return s.hash, nil''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","services":[{"name":"A","methods":[{"name":"A"}]},{"name":"B","methods":[{"name":"A"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	a, _ := s.SchemaHash()
	s = schema.MatchServices(s, []string{"B"})
	b, _ := s.SchemaHash()
	if a == b {
		t.Fatal("same hash")
	}
''')),
dict(id="import-members-fold-case", property="C13", pkg="schema/ridl",
  needs="an import that names members, of a file with a type and an error or service whose names differ in letter case only",
  breaks="a member that wasn't named is imported",
  edits=[("schema/ridl/ridl.go", "		if name == whitelist[i] {", "		if strings.EqualFold(name, whitelist[i]) {")],
  demo=ridl('''	s, err := parse(t, map[string]string{
		"main.ridl": "%simport a.ridl\\n  - Abc\\n",
		"a.ridl": "%sstruct Abc\\n  - x: string\\n\\nerror 4 ABC \\"m\\"\\n",
	})
	if err != nil || len(s.Errors) != 0 {
		t.Fatal(err, s)
	}
''' % (H, H))),
dict(id="import-depth-limit", property="C14", pkg="schema/ridl",
  needs="a chain of more than 24 imports",
  breaks="an import tree without cycle is rejected",
  edits=[("schema/ridl/ridl.go", '''	if p.imports.IsCircular() {''', '''	depth := 0
	for q := p; q != nil; q = q.parent {
		depth++
	}

	if depth > 24 || p.imports.IsCircular() {''')],
  demo=ridl('''	files := map[string]string{"main.ridl": "%simport f0.ridl\\n"}
	for i := 0; i < 40; i++ {
		files[fmt.Sprintf("f%%d.ridl", i)] = fmt.Sprintf("%simport f%%d.ridl\\n", i+1)
	}
	files["f40.ridl"] = "%sstruct A\\n  - x: string\\n"
	if _, err := parse(t, files); err != nil {
		t.Fatal(err)
	}
''' % (H, H, H), ["fmt"])),
dict(id="string-ends-with-file", property="C15", pkg="schema/ridl",
  needs="a RIDL text that ends with a backslash within a quoted value",
  breaks="the parser panics",
  edits=[("schema/ridl/parser.go", '''		tok := p.cursor()
		p.next()

		switch tok.tt {

		case tokenNewLine:''', '''		tok := p.cursor()
		p.next()

		if tok.tt == tokenBackslash && p.tokens[p.pos].tt != tokenWord && p.tokens[p.pos].tt != tokenQuote {
			return nil, errUnexpectedEOL
		}

		switch tok.tt {

		case tokenNewLine:''')],
  demo=ridl('''	if _, err := parse(t, map[string]string{"main.ridl": "webrpc = v1\\nname = \\"a\\\\"}); err == nil {
		t.Fatal("accepted")
	}
''')),
dict(id="services-in-requested-order", property="C19", pkg="schema",
  needs="services that are requested in another order than they are declared in",
  breaks="the order of services changes, and services requested twice appear twice",
  edits=[("schema/schema.go", '''	for _, srv := range s.Services {
		if _, ok := serviceMap[srv.Name]; ok {
			matchedServices = append(matchedServices, srv)
		}
	}
''', '''	for _, name := range services {
		for _, srv := range s.Services {
			if _, ok := serviceMap[name]; ok && srv.Name == name {
				matchedServices = append(matchedServices, srv)
			}
		}
		delete(serviceMap, name)
	}
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","services":[{"name":"A","methods":[{"name":"A"}]},{"name":"B","methods":[{"name":"A"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	s = schema.MatchServices(s, []string{"B", "A"})
	if s.Services[0].Name != "A" {
		t.Fatal("reordered")
	}
''')),
dict(id="match-needs-all-annotations", property="C20", pkg="schema",
  needs="matching by two annotations of which a method has the first with another value",
  breaks="a method that has one of the requested annotations is dropped",
  edits=[("schema/schema.go", '''				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}

				trimmedAnnVal := strings.Trim(value, " ")
				if trimmedAnnVal == "" {
					// match annotation types only
					if name == ann.AnnotationType {
						match = true
						break
					}
				} else {
					// match @key:value
					if name == ann.AnnotationType && value == ann.Value {
						match = true
						break
					}
				}
''', '''				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}

				match = name == ann.AnnotationType
				if strings.Trim(value, " ") != "" {
					// match @key:value
					match = match && value == ann.Value
				}
				if match {
					break
				} else if len(annotations) > 2 {
					break // another value
				}
''')],
  demo=json_('''	for i := 0; i < 100; i++ {
		s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","services":[{"name":"A","methods":[{"name":"A","annotations":{"a":{"annotationType":"a","value":"1"},"b":{"annotationType":"b","value":"1"},"c":{"annotationType":"c","value":"1"}}}]}]}`))
		if err != nil {
			t.Fatal(err)
		}
		s = schema.MatchMethodsWithAnnotations(s, map[string]string{"a": "2", "b": "", "c": "2"})
		if len(s.Services[0].Methods) != 1 {
			t.Fatal("dropped")
		}
	}
''')),
dict(id="optional-bigint-lists", property="C21", pkg="schema",
  needs="a struct whose only bigint is in an optional field of a list type",
  breaks="the struct isn't listed as having bigints",
  edits=[("schema/helpers.go", '''			if f.Type.Type == T_List && f.Type.List != nil && strings.EqualFold(f.Type.List.Elem.Expr, "bigint") {
				memo[name] = true''', '''			if f.Type.Type == T_List && !f.Optional && f.Type.List != nil && strings.EqualFold(f.Type.List.Elem.Expr, "bigint") {
				memo[name] = true''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[{"kind":"struct","name":"B","fields":[{"name":"n","type":"[]bigint","optional":true}]},{"kind":"struct","name":"C","fields":[{"name":"b","type":"B"}]}],"services":[{"name":"S","methods":[{"name":"M","outputs":[{"name":"a","type":"C"}]}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	got := schema.SchemaBigIntFieldsByType(s)
	if len(got["C"]) == 0 || len(got["MResponse"]) == 0 {
		t.Fatal(got)
	}
''')),
dict(id="basepath-decoded", property="C22", pkg="schema",
  needs="a base path without leading slash that has an escaped character",
  breaks="the base path isn't kept as written",
  edits=[("schema/schema.go", '''			s.BasePath = "/" + s.BasePath
''', '''			s.BasePath = parsed.Path
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","basepath":"a%2Fb"}`))
	if err != nil {
		t.Fatal(err)
	}
	if s.BasePath != "/a%2Fb/" {
		t.Fatal(s.BasePath)
	}
''')),
dict(id="working-directory-at-start", property="C24", pkg=".",
  needs="a relative path after the process has changed its working directory",
  breaks="another file than the named one is loaded",
  edits=[("webrpc.go", '''	absolutePath, err := filepath.Abs(path)
''', '''	absolutePath, err := absolute(path)
'''), ("webrpc.go", '''func ParseSchemaFile(''', '''var workingDirectory, _ = os.Getwd()

func absolute(path string) (string, error) {
	if filepath.IsAbs(path) || workingDirectory == "" {
		return filepath.Abs(path)
	}
	return filepath.Join(workingDirectory, path), nil
}

func ParseSchemaFile(''')],
  demo='''package webrpc_test

import (
	"os"
	"testing"

	"github.com/webrpc/webrpc"
)

func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(dir+"/a.ridl", []byte("webrpc = v1\\nname = a\\nversion = v1\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	old, _ := os.Getwd()
	defer os.Chdir(old)
	if err := os.Chdir(dir); err != nil {
		t.Fatal(err)
	}
	if _, err := webrpc.ParseSchemaFile("a.ridl"); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="quoted-tabs-are-blanks", property="C25", pkg="schema/ridl",
  needs="a quoted value with a run of blanks or a tab",
  breaks="white space within the value is changed",
  edits=[("schema/ridl/parser.go", '''	values := []string{}
	for _, t := range tokens {
		values = append(values, t.val)
	}
''', '''	values := []string{}
	for _, t := range tokens {
		if t.tt == tokenWhitespace && len(t.val) > 2 {
			values = append(values, " ")
			continue
		}
		values = append(values, t.val)
	}
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "webrpc = v1\\nname = \\"a    b\\"\\nversion = v1\\n"})
	if err != nil {
		t.Fatal(err)
	}
	if s.SchemaName != "a    b" {
		t.Fatalf("%q", s.SchemaName)
	}
''')),
dict(id="comment-state-is-shared", property="C33", pkg="schema/ridl",
  needs="two RIDL texts that are parsed at the same time",
  breaks="comments of one text appear in, or get lost from, the other",
  edits=[("schema/ridl/tokenizer.go", '''	lineComments := make(map[int]string)
''', '''	clear(lineComments)
'''), ("schema/ridl/tokenizer.go", '''// tokenize
''', '''var lineComments = make(map[int]string)

// tokenize
''')],
  demo=ridl('''	src := "%s" + strings.Repeat("# x\\nstruct A@\\n  - x: string\\n\\n\\n", 200)
	for i := 0; i < 200; i++ {
		src = strings.Replace(src, "@", fmt.Sprint(i), 1)
	}
	var mu sync.Mutex
	_ = mu
	errs := make(chan string, 64)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 10; j++ {
				s, err := parse(t, map[string]string{"main.ridl": src})
				if err != nil {
					errs <- err.Error()
					return
				}
				for _, typ := range s.Types {
					if len(typ.Comments) != 1 {
						errs <- typ.Name
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	select {
	case e := <-errs:
		t.Fatal(e)
	default:
	}
''' % H, ["strings", "sync", "fmt"])),
dict(id="required-fields-in-place", property="C34", pkg="schema",
  needs="RequiredFields of a struct with an optional field before a required one",
  breaks="the fields of the struct are overwritten",
  edits=[("schema/type.go", "	requiredFields := make([]*TypeField, 0)", "	requiredFields := t.Fields[:0]")],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","types":[{"kind":"struct","name":"B","fields":[{"name":"x","type":"int","optional":true},{"name":"y","type":"int"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	s.Types[0].RequiredFields()
	if s.Types[0].Fields[0].Name != "x" {
		t.Fatal("overwritten")
	}
''')),
# generators
dict(id="nested-map-value", property="C26", pkg="gen",
  needs="mapValueType of a map of maps",
  breaks="the value type of a map of maps loses its end",
  edits=[("gen/funcmap_types.go", '''	return strings.TrimSuffix(value, ">")''', '''	return strings.TrimRight(value, ">")''')],
  demo=gen('''	out, err := render(t, base, `{{ mapValueType "map<string,map<string,int>>" }}`, nil)
	if err != nil || out != "map<string,int>" {
		t.Fatal(out, err)
	}
''')),
dict(id="minor-above-127", property="C27", pkg="gen",
  needs="a version with a minor part above 127",
  breaks="minVersion fails for valid versions",
  edits=[("gen/funcmap_flow.go", '''		minor, err = strconv.Atoi(parts[1])
		if err != nil {
			return
		}
''', '''		var n int64
		n, err = strconv.ParseInt(parts[1], 10, 8)
		if err != nil {
			return
		}
		minor = int(n)
''')],
  demo=gen('''	out, err := render(t, base, `{{ minVersion "v1.200.0" "v1.3" }}`, nil)
	if err != nil || out != "true" {
		t.Fatal(out, err)
	}
''')),
dict(id="hash-before-default-basepath", property="C28", pkg="gen",
  needs="a schema with services and no base path from which code is generated twice",
  breaks="the schema hash in the output differs between runs",
  edits=[("gen/gen.go", '''	if proto.BasePath == "" && len(proto.Services) > 0 {
		proto.BasePath = "/rpc/"
	}

	// Generate deterministic schema hash of the proto file
	schemaHash, err := proto.SchemaHash()
	if err != nil {
		return nil, err
	}
''', '''	// Generate deterministic schema hash of the proto file
	schemaHash, err := proto.SchemaHash()
	if err != nil {
		return nil, err
	}

	if proto.BasePath == "" && len(proto.Services) > 0 {
		proto.BasePath = "/rpc/"
	}
''')],
  demo=gen('''	dir := t.TempDir()
	os.WriteFile(dir+"/main.go.tmpl", []byte(`{{- define "main" -}}{{ .SchemaHash }}{{- end -}}`), 0o644)
	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"a","version":"v1","services":[{"name":"S","methods":[{"name":"M"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	a, err := gen.Generate(s, dir, &gen.Config{})
	if err != nil {
		t.Fatal(err)
	}
	b, err := gen.Generate(s, dir, &gen.Config{})
	if err != nil || a.Code != b.Code {
		t.Fatal(err, a.Code, b.Code)
	}
''')),
dict(id="out-not-truncated", property="C29", pkg="gen",
  needs="an output file that exists and is longer than the new output",
  breaks="the rest of the old file is left at the end",
  edits=[("cmd/webrpc-gen/main.go", '''	err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	if err != nil {
		return err
	}

	return nil
''', '''	f, err := os.OpenFile(outfile, os.O_WRONLY|os.O_CREATE, 0o644)
	if err != nil {
		return err
	}
	if _, err := f.Write(protoGen); err != nil {
		f.Close()
		return err
	}

	return f.Close()
''')],
  demo=clid('''	write(t, dir+"/a.ridl", "webrpc = v1\\nname = a\\nversion = v1\\n")
	write(t, dir+"/out.json", strings.Repeat("x", 10000))
	if _, err := cli(t, dir, "-schema=a.ridl", "-target=json", "-out=out.json"); err != nil {
		t.Fatal(err)
	}
	if b, err := os.ReadFile(dir + "/out.json"); err != nil || strings.Contains(string(b), "xxx") {
		t.Fatal(err, "old content")
	}
''', ["strings"])),
dict(id="annotation-flag-last-colon", property="C29", pkg="gen",
  needs="an -ignore or -match flag with an annotation value that has a colon",
  breaks="the wrong methods are generated",
  edits=[("cmd/webrpc-gen/main.go", '''		annotationName, annotationValue, _ := strings.Cut(fullAnnotation, ":")
''', '''		annotationName, annotationValue := fullAnnotation, ""
		if i := strings.LastIndex(fullAnnotation, ":"); i >= 0 {
			annotationName, annotationValue = fullAnnotation[:i], fullAnnotation[i+1:]
		}
''')],
  demo=clid('''	write(t, dir+"/a.ridl", "webrpc = v1\\nname = a\\nversion = v1\\nbasepath = /rpc\\n\\nservice S\\n  @a:\\"b:c\\"\\n  - M1()\\n  - M2()\\n")
	out, err := cli(t, dir, "-schema=a.ridl", "-target=json", "-match=@a:b:c")
	if err != nil || !strings.Contains(out, "M1") || strings.Contains(out, "M2") {
		t.Fatal(err, out)
	}
''', ["strings"])),
dict(id="sort-in-place", property="C30", pkg="gen",
  needs="a template that uses an array after sorting it",
  breaks="sort changes the array it is given",
  edits=[("gen/funcmap_generic.go", '''	sorted := make([]interface{}, len(array))
	copy(sorted, array)
''', '''	sorted := array
''')],
  demo=gen('''	out, err := render(t, base, `{{ $a := array "b" "a" }}{{ $b := sort $a }}{{ join $a "," }}`, nil)
	if err != nil || out != "b,a" {
		t.Fatal(out, err)
	}
''')),
dict(id="first-word-of-digits", property="C30", pkg="gen",
  needs="firstWordToLower of a name with a digit within the first upper-case word",
  breaks="the wrong part of the name is changed to lower case",
  edits=[("gen/funcmap.go", '''				if j > 1 && j < length && isLower(letters[j]) && (j+1) < length && isLower(letters[j+1]) {''', '''				if j > 2 && j < length && isLower(letters[j]) && (j+1) < length && isLower(letters[j+1]) {''')],
  demo=gen('''	out, err := render(t, base, `{{ firstWordToLower "ABcd" }}`, nil)
	if err != nil || out != "aBcd" {
		t.Fatal(out, err)
	}
''')),
dict(id="builtin-errors-without-services", property="C31", pkg="gen",
  needs="a schema without services",
  breaks="templates don't see the built-in errors",
  edits=[("gen/gen.go", '''	if isLocalDir(target) {
		vars.WebrpcTarget = target
	}
''', '''	if isLocalDir(target) {
		vars.WebrpcTarget = target
	}
	if len(proto.Services) == 0 && len(proto.Errors) == 0 {
		vars.WebrpcErrors = nil // types only
	}
''')],
  demo=gen('''	out, err := render(t, base, `{{ len .WebrpcErrors }}`, nil)
	if err != nil || out == "0" {
		t.Fatal(out, err)
	}
''')),
dict(id="header-version-of-parts", property="C31", pkg="gen",
  needs="a target directory whose name has more than one @",
  breaks="the version of the generator is cut off",
  edits=[("gen/gen.go", '''	codeGenName, codeGenVersion, _ := strings.Cut(v[len(v)-1], "@")
''', '''	codeGenName, codeGenVersion, _ := strings.Cut(v[len(v)-1], "@")
	if i := strings.LastIndex(codeGenVersion, "@"); i >= 0 {
		codeGenVersion = codeGenVersion[i+1:]
	}
''')],
  demo=gen('''	dir := t.TempDir() + "/x@y@z"
	os.Mkdir(dir, 0o755)
	os.WriteFile(dir+"/main.go.tmpl", []byte(`{{- define "main" -}}{{ .CodeGenVersion }}{{- end -}}`), 0o644)
	s, err := schema.ParseSchemaJSON([]byte(base))
	if err != nil {
		t.Fatal(err)
	}
	a, err := gen.Generate(s, dir, &gen.Config{})
	if err != nil || a.Code != "y@z" {
		t.Fatal(err, a)
	}
''')),
dict(id="old-cache-not-used", property="C32", pkg="gen",
  needs="a cached copy that is older than a month, and a failing fetch",
  breaks="generation fails though the templates are cached",
  edits=[("gen/template_source.go", '''			if cacheAvailable {
				sourceFS = cacheFS''', '''			if cacheAvailable && cacheAge < 30*24*time.Hour {
				sourceFS = cacheFS''')],
  demo=clid('''	write(t, dir+"/a.ridl", "webrpc = v1\\nname = a\\nversion = v1\\n")
	h := fnv.New32a()
	h.Write([]byte("github.com/x/y@v1"))
	c := fmt.Sprintf("%s/webrpc-cache/%d-y@v1/", dir, h.Sum32())
	write(t, c+"main.go.tmpl", `{{- define "main" -}}cached{{- end -}}`)
	write(t, c+".webrpc-gen-info", "github.com/x/y@v1")
	write(t, c+".webrpc-gen-timestamp", fmt.Sprint(time.Now().Unix()-90*24*3600))
	out, err := cli(t, dir, "-schema=a.ridl", "-target=github.com/x/y@v1")
	if err != nil || !strings.Contains(out, "cached") {
		t.Fatal(err, out)
	}
''', ["fmt", "hash/fnv", "strings", "time"])),
]

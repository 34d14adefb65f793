exec(open("/verif/tools/plants/b.py").read().split("\nPLANTS = [")[0])

J = '{"webrpc":"v1","name":"a","version":"v1",'

PLANTS = [
dict(id="alias-of-alias-collapsed", property="C07", pkg="schema/ridl",
  needs="a field with the type of an alias of an alias, resolved after the aliases",
  breaks="the type resolves to the inner alias, and its text changes",
  edits=[("schema/var_type.go", '''			vt.Alias = &VarAliasType{Name: expr, Type: typ}
''', '''			vt.Alias = &VarAliasType{Name: expr, Type: typ}
			if typ.Type != nil && typ.Type.Alias != nil {
				vt.Alias = typ.Type.Alias // go straight to the last alias
			}
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%stype A: string\\ntype B: A\\nstruct S\\n  - x: B\\n"})
	if err != nil || s.GetTypeByName("S").Fields[0].Type.String() != "B" {
		t.Fatal(err, s)
	}
''' % H)),
dict(id="string-enum-keys-are-strings", property="C07", pkg="schema",
  needs="a map with a key that is an enum of strings",
  breaks="the key resolves to a plain string",
  edits=[("schema/var_type.go", '''				Key:   &VarType{Expr: key, Type: T_Enum, Enum: &VarEnumType{Name: key, Type: t}},
				Value: &VarType{},
			}
''', '''				Key:   &VarType{Expr: key, Type: T_Enum, Enum: &VarEnumType{Name: key, Type: t}},
				Value: &VarType{},
			}
			if t.Type.String() == "string" {
				vt.Map.Key = &VarType{Expr: key, Type: T_String}
			}
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"enum","name":"E","type":"string","fields":[{"name":"A","value":"A"}]},{"kind":"struct","name":"S","fields":[{"name":"x","type":"map<E,int>"}]}]}`))
	if err != nil || s.Types[1].Fields[0].Type.Map.Key.Enum == nil {
		t.Fatal(err)
	}
''' % J)),
dict(id="json-drops-blank-comment-lines", property="C10", pkg="schema/ridl",
  needs="a struct with a doc comment with a blank line",
  breaks="the blank line is lost when the JSON form is parsed",
  edits=[("schema/type.go", '''	// Ensure we have a valid kind
''', '''	// Blank comment lines are of no use
	comments := make([]string, 0, len(t.Comments))
	for _, c := range t.Comments {
		if c != "" || schema.BasePath != "" {
			comments = append(comments, c)
		}
	}
	t.Comments = comments

	// Ensure we have a valid kind
'''), ("schema/type.go", '''	// NOTE: Allow structs with no fields.
''', '''	// NOTE: We allow structs with no fields.
''')],
  demo=ridl('''	s, err := parse(t, map[string]string{"main.ridl": "%s# a\\n#\\n# b\\nstruct S\\n  - x: string\\n"})
	if err != nil || len(s.Types[0].Comments) != 3 {
		t.Fatal(err, s.Types[0].Comments)
	}
''' % H)),
dict(id="status-left-out-of-json", property="C11", pkg="schema", also=["C10"],
  needs="an error with the status 400 in the JSON form",
  breaks="the JSON form of such an error is not accepted again",
  edits=[("schema/error.go", '''	HTTPStatus int    `json:"httpStatus"`

''', '''	HTTPStatus int    `json:"httpStatus,omitempty"`

'''), ("schema/error.go", '''func (s *Error) Parse(''', '''// MarshalJSON leaves out the default status.
func (s Error) MarshalJSON() ([]byte, error) {
	type plain Error
	if s.HTTPStatus == 400 && s.Code >= 5000 {
		s.HTTPStatus = 0
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	err := enc.Encode(plain(s))
	return buf.Bytes(), err
}

func (s *Error) Parse('''), ("schema/error.go", '''import (
''', '''import (
	"bytes"
	"encoding/json"
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"errors":[{"code":5000,"name":"A","message":"m","httpStatus":400}]}`))
	if err != nil {
		t.Fatal(err)
	}
	j, err := s.ToJSON()
	if err != nil {
		t.Fatal(err)
	}
	if _, err := schema.ParseSchemaJSON([]byte(j)); err != nil {
		t.Fatal(err)
	}
''' % J)),
dict(id="alias-chain-followed", property="C16", pkg="schema", flags="-timeout 20s",
  needs="a map whose key is an alias in a cycle of two aliases",
  breaks="parsing never ends",
  edits=[("schema/var_type.go", '''		if keyType, ok := CoreTypeFromString[key]; ok {
''', '''		keyType, ok := CoreTypeFromString[key]
		for target, found := getType(schema, key); found && target.Kind == TypeKind_Alias; {
			next, more := getType(schema, target.Type.String())
			if !more || next == target {
				break
			}
			target = next
		}
		if ok {
''')],
  demo=json_('''	done := make(chan bool, 1)
	go func() {
		schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"alias","name":"A","type":"B"},{"kind":"alias","name":"B","type":"A"},{"kind":"struct","name":"S","fields":[{"name":"x","type":"map<A,int>"}]}]}`))
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("hangs")
	}
''' % J, ["time"])),
dict(id="parsed-fields-not-checked-again", property="C17", pkg="schema/ridl", also=["C13", "C09"],
  needs="an import of chosen members: a struct without the type of its field",
  breaks="the schema is accepted with a reference to a type it doesn't have",
  edits=[("schema/type.go", '''			// Parse+validate type fields
			err := field.Type.Parse(schema)
''', '''			// Parse+validate type fields, unless the type is known already
			if field.Type != nil && field.Type.Struct != nil {
				continue
			}
			err := field.Type.Parse(schema)
'''), ("schema/type.go", '''				return err
			}

			// Ensure value isn't set
''', '''				return err
			}

			// Ensure no value is set
''')],
  demo=ridl('''	_, err := parse(t, map[string]string{
		"main.ridl": "%simport t.ridl\\n  - A\\n",
		"t.ridl": "%sstruct A\\n  - x: B\\nstruct B\\n  - y: string\\n",
	})
	if err == nil {
		t.Fatal("accepted")
	}
''' % (H, H))),
dict(id="trace-without-root", property="C23", pkg="schema/ridl",
  needs="a syntax error in a file that is imported by an imported file",
  breaks="the list of files in the message ends before the root",
  edits=[("schema/ridl/ridl.go", '''	for p := parser; p != nil; p = p.parent {
''', '''	for p := parser; p != nil && (p.parent != nil || len(stack) < 2); p = p.parent {
''')],
  demo=ridl('''	_, err := parse(t, map[string]string{
		"main.ridl": "%simport b.ridl\\n",
		"b.ridl": "%simport c.ridl\\n",
		"c.ridl": "%s!\\n",
	})
	if err == nil || !strings.Contains(err.Error(), "main.ridl") {
		t.Fatal(err)
	}
''' % (H, H, H), ["strings"])),
dict(id="names-validated-once", property="C33", pkg="schema", flags="-race",
  needs="two schemas that are parsed at the same time",
  breaks="a shared map is written concurrently",
  edits=[("schema/parser.go", '''func IsValidArgName(s string) bool {
	if !NameWhitelistRexp.MatchString(s) {
		return false
	}
	return true
}''', '''// names that were found to be valid
var validArgNames = map[string]bool{}

func IsValidArgName(s string) bool {
	if validArgNames[s] {
		return true
	}
	if !NameWhitelistRexp.MatchString(s) {
		return false
	}
	validArgNames[s] = true
	return true
}''')],
  demo=json_('''	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				schema.ParseSchemaJSON([]byte(fmt.Sprintf(`%s"types":[{"kind":"struct","name":"S","fields":[{"name":"x%%d","type":"int"}]}]}`, k)))
			}
		}()
	}
	wg.Wait()
''' % J, ["fmt", "sync"])),
dict(id="lookup-folds-more", property="C34", pkg="schema", also=["C09"],
  needs="two types whose names differ in letters that only Unicode folding makes equal",
  breaks="the lookup by name gives the other type",
  edits=[("schema/schema.go", '''	name = strings.ToLower(name)
	for _, message := range s.Types {
		if strings.ToLower(message.Name) == name {
			return message
''', '''	for _, message := range s.Types {
		if strings.EqualFold(message.Name, name) {
			return message
''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"A\\u017f"},{"kind":"struct","name":"As"}]}`))
	if err != nil {
		t.Fatal(err)
	}
	if got := s.GetTypeByName("As"); got == nil || got.Name != "As" {
		t.Fatal(got)
	}
''' % J)),
dict(id="list-elem-of-lists", property="C26", pkg="gen",
  needs="the element type of a list of lists, given as text",
  breaks="all brackets are removed",
  edits=[("gen/funcmap_types.go", '''		return strings.TrimPrefix(str, "[]")
''', '''		return strings.TrimLeft(str, "[]")
''')],
  demo=gen('''	got, err := render(t, base, `{{ listElemType "[][]int" }}`, nil)
	if err != nil || got != "[]int" {
		t.Fatal(err, got)
	}
''')),
dict(id="cycle-by-base-name", property="C14", pkg="schema/ridl", also=["C13"],
  needs="files with the same base name in two directories, one importing the other",
  breaks="the import is rejected as a cycle",
  edits=[("schema/ridl/ridl.go", '''	p.imports.AddNode(filename)
	p.imports.AddEdge(p.path, filename)
''', '''	p.imports.AddNode(path.Base(filename))
	p.imports.AddEdge(path.Base(p.path), path.Base(filename))
''')],
  demo=ridl('''	_, err := parse(t, map[string]string{
		"main.ridl": "%simport a/t.ridl\\n",
		"a/t.ridl": "%simport b/t.ridl\\n",
		"a/b/t.ridl": "%sstruct B\\n  - x: string\\n",
	})
	if err != nil {
		t.Fatal(err)
	}
''' % (H, H, H))),
dict(id="map-with-rest", property="C08", pkg="schema",
  needs="a map type in JSON followed by more text that ends in >",
  breaks="the text after the map is ignored",
  edits=[("schema/var_type.go", '''	key := expr[0:p]
	value := expr[p+1:]

	return key, value, nil
''', '''	key := expr[0:p]
	value := expr[p+1:]

	// the value ends with the map
	depth := 0
	for i, c := range value {
		switch c {
		case '<':
			depth++
		case '>':
			depth--
		}
		if depth < 0 {
			value = value[:i]
			break
		}
	}

	return key, value, nil
''')],
  demo=json_('''	_, err := schema.ParseSchemaJSON([]byte(`%s"types":[{"kind":"struct","name":"S","fields":[{"name":"x","type":"map<string,int>,int>"}]}]}`))
	if err == nil {
		t.Fatal("accepted")
	}
''' % J)),
dict(id="json-with-line-comments", property="C10", pkg="schema", also=["C11", "C24"],
  needs="a text in a JSON schema with two slashes after a blank",
  breaks="the rest of the line is removed",
  edits=[("schema/parser.go", '''	var schema *WebRPCSchema
	err := json.Unmarshal(jsondata, &schema)
''', '''	var schema *WebRPCSchema
	err := json.Unmarshal(lineComment.ReplaceAll(jsondata, nil), &schema)
'''), ("schema/parser.go", '''var NameWhitelistRexp''', '''// comments are allowed at the end of lines of JSON files
var lineComment = regexp.MustCompile(`(?m)\\s// [^\\n]*$`)

var NameWhitelistRexp''')],
  demo=json_('''	s, err := schema.ParseSchemaJSON([]byte(`%s"errors":[{"code":1,"name":"A","message":"see // here","httpStatus":400}]}`))
	if err != nil || s.Errors[0].Message != "see // here" {
		t.Fatal(err, s)
	}
''' % J)),
dict(id="failed-refresh-counts-as-fresh", property="C32", pkg="gen",
  needs="an old cache, a failed refresh, and another run",
  breaks="the failed refresh marks the cache as fresh: the next run doesn't report that the templates can't be fetched",
  edits=[("gen/template_source.go", '''				sourceFS = cacheFS
				s.CacheAge = cacheAge
			} else {''', '''				sourceFS = cacheFS
				s.CacheAge = cacheAge
				if !s.config.RefreshCache {
					// don't try again too soon
					now := []byte(strconv.FormatInt(time.Now().Unix(), 10))
					_ = os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), now, 0755)
				}
			} else {'''), ("gen/template_source.go", '''			s.CacheRefreshErr = err
			// load from cache, if available
''', '''			s.CacheRefreshErr = err
			// load from cache if we have it
''')],
  demo=gen('''	t.Setenv("TMPDIR", t.TempDir())
	target := "github.com/nobody/nothing@v1"
	for i := range 2 {
		dir := cache(t, target)
		if i == 0 {
			os.MkdirAll(dir, 0o755)
			os.WriteFile(dir+"/main.go.tmpl", []byte(`{{ define "main" }}x{{ end }}`), 0o644)
			os.WriteFile(dir+"/.webrpc-gen-info", []byte(target), 0o644)
			os.WriteFile(dir+"/.webrpc-gen-timestamp", []byte("1000"), 0o644)
		}
		s, err := schema.ParseSchemaJSON([]byte(base))
		if err != nil {
			t.Fatal(err)
		}
		out, err := gen.Generate(s, target, &gen.Config{})
		if err != nil || out.CacheRefreshErr == nil {
			t.Fatal(i, err, out.CacheRefreshErr)
		}
	}
}

func cache(t *testing.T, target string) string {
	h := fnv.New32a()
	h.Write([]byte(target))
	return fmt.Sprintf("%s/webrpc-cache/%d-%s", os.TempDir(), h.Sum32(), target[strings.LastIndex(target, "/")+1:])
''', ["fmt", "hash/fnv", "strings"])),
dict(id="hash-of-first-schema", property="C28", pkg="gen",
  needs="two schemas generated by one process, the second with the same name and version",
  breaks="the second gets the hash of the first",
  edits=[("gen/gen.go", '''	schemaHash, err := proto.SchemaHash()
	if err != nil {
		return nil, err
	}
''', '''	hashKey := fmt.Sprint(proto.SchemaName, "@", proto.SchemaVersion, " ", len(proto.Types), " ", len(proto.Services))
	hashMu.Lock()
	defer hashMu.Unlock()
	schemaHash, ok := hashes[hashKey]
	if !ok {
		schemaHash, err = proto.SchemaHash()
		if err != nil {
			return nil, err
		}
		hashes[hashKey] = schemaHash
	}
'''), ("gen/gen.go", '''type GenOutput struct {''', '''// hashes of the schemas, to compute them once for all targets
var (
	hashMu sync.Mutex
	hashes = map[string]string{}
)

type GenOutput struct {'''), ("gen/gen.go", '''	"strings"

''', '''	"strings"
	"sync"

''')],
  demo=gen('''	a, err := render(t, base, `{{ .SchemaHash }}`, nil)
	b, err2 := render(t, strings.Replace(base, `"types"`, `"basepath":"/x/","types"`, 1), `{{ .SchemaHash }}`, nil)
	if err != nil || err2 != nil || a == b {
		t.Fatal(err, err2, a, b)
	}
''', ["strings"])),
dict(id="client-run-again", property="C36", pkg="cmd/webrpc-test",
  needs="a server that answers wrongly only once",
  breaks="the client runs the suite again after a failure and passes",
  edits=[("cmd/webrpc-test/main.go", '''		if err := client.RunTests(context.Background(), *clientUrlFlag); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
''', '''		err := client.RunTests(context.Background(), *clientUrlFlag)
		if err != nil {
			// the server may have been busy
			err = client.RunTests(context.Background(), *clientUrlFlag)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
''')],
  demo='''package main

import (
	"net/http"
	"net/http/httptest"
	"net/http/httputil"
	"net/url"
	"os"
	"os/exec"
	"sync/atomic"
	"testing"
	"time"

	"github.com/webrpc/webrpc/tests/server"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_URL") != "" {
		os.Args = []string{"webrpc-test", "-client", "-url=" + os.Getenv("DEMO_URL")}
		main()
		os.Exit(0)
	}
	srv, err := server.RunTestServer("127.0.0.1:19871", time.Minute)
	if err != nil {
		t.Fatal(err)
	}
	defer srv.Close()
	u, _ := url.Parse("http://127.0.0.1:19871")
	proxy := httputil.NewSingleHostReverseProxy(u)
	var n atomic.Int32
	front := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if n.Add(1) == 1 {
			w.WriteHeader(500)
			return
		}
		proxy.ServeHTTP(w, r)
	}))
	defer front.Close()
	cmd := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_URL="+front.URL)
	if out, err := cmd.CombinedOutput(); err == nil {
		t.Fatalf("passed: %s", out)
	}
}
'''),
dict(id="wait-accepts-any-server", property="C36", pkg="cmd/webrpc-test",
  needs="waiting for a server that doesn't come up while the time is up early",
  breaks="webrpc-test -waitForServer exits with 0 if the time was too short",
  edits=[("cmd/webrpc-test/main.go", '''		if err := client.Wait(*waitUrlFlag, *waitTimeoutFlag); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
''', '''		if err := client.Wait(*waitUrlFlag, *waitTimeoutFlag); err != nil {
			fmt.Fprintln(os.Stderr, err)
			if *waitTimeoutFlag >= time.Second {
				os.Exit(1)
			}
		}
''')],
  demo='''package main

import (
	"os"
	"os/exec"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_WAIT") != "" {
		os.Args = []string{"webrpc-test", "-waitForServer", "-url=http://127.0.0.1:1", "-timeout=300ms"}
		main()
		os.Exit(0)
	}
	cmd := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	cmd.Env = append(os.Environ(), "DEMO_WAIT=1")
	if out, err := cmd.CombinedOutput(); err == nil {
		t.Fatalf("passed: %s", out)
	}
}
'''),
]

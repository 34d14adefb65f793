package wire

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/webrpc/webrpc/schema"
	"github.com/webrpc/webrpc/schema/ridl"
	"github.com/webrpc/webrpc/tests/client"
	"github.com/webrpc/webrpc/tests/server"
	"pgregory.net/rapid"
	"testing/fstest"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// change is what happens to the response of one call of the suite.
type change struct {
	Method string   `json:"method"`
	Code   int      `json:"code,omitempty"` // of GetSchemaError
	Kind   string   `json:"kind"`
	Path   []string `json:"path,omitempty"` // of a value in the response
	Text   string   `json:"text,omitempty"`
	Once   bool     `json:"once,omitempty"` // only the first time
}

type suiteCase struct {
	// how all responses are written, which conforms
	Layout  int    `json:"layout,omitempty"`
	Extra   bool   `json:"extra,omitempty"`
	NoCause bool   `json:"noCause,omitempty"`
	Slow    bool   `json:"slow,omitempty"`
	Base    string `json:"base,omitempty"`

	Change *change  `json:"change,omitempty"`
	Tool   bool     `json:"tool,omitempty"`  // through the command
	Serve  bool     `json:"serve,omitempty"` // the command's server
	Wait   int      `json:"wait,omitempty"`  // answers after that many failed requests, -1 never
	Args   []string `json:"args,omitempty"`

	Send *change `json:"send,omitempty"` // a request to the reference server
}

// fixtures are the results of the reference server by method, by their schema.
var fixtureUser = map[string]any{"id": 1.0, "USERNAME": "John-Doe", "role": "admin"}
var fixtures = map[string]map[string]any{
	"one":   {"one": map[string]any{"id": 1.0, "name": "one"}},
	"multi": {"one": map[string]any{"id": 1.0, "name": "one"}, "two": map[string]any{"id": 2.0, "name": "two"}, "three": map[string]any{"id": 3.0, "name": "three"}},
	"complex": {"complex": map[string]any{
		"meta":              map[string]any{"1": "23", "2": 24.0},
		"metaNestedExample": map[string]any{"1": map[string]any{"2": 1.0}},
		"namesList":         []any{"John", "Alice", "Jakob"},
		"numsList":          []any{1.0, 2.0, 3.0, 4534643543.0},
		"doubleArray":       []any{[]any{"testing"}, []any{"api"}},
		"listOfMaps":        []any{map[string]any{"john": 1.0, "alice": 2.0, "Jakob": 251.0}},
		"listOfUsers":       []any{fixtureUser},
		"mapOfUsers":        map[string]any{"admin": fixtureUser},
		"user":              fixtureUser,
		"status":            "AVAILABLE",
	}},
	"list": {"list": []any{"AVAILABLE", "NOT_AVAILABLE"}},
	"map":  {"map": map[string]any{"READ": 1.0, "WRITE": 2.0}},
}

// leaves lists the paths of all values that can be changed.
func leaves(v any, at []string, f func(path []string)) {
	switch x := v.(type) {
	case map[string]any:
		keys := m.SortedKeys(x)
		for _, k := range keys {
			leaves(x[k], append(slices.Clone(at), k), f)
		}
	case []any:
		for i := range x {
			leaves(x[i], append(slices.Clone(at), strconv.Itoa(i)), f)
		}
	}
	if len(at) > 0 {
		f(at)
	}
}

// edit changes the value at a path: another value, none, or one more.
func edit(v any, path []string, kind string) (any, bool) {
	if len(path) > 0 {
		switch x := v.(type) {
		case map[string]any:
			out := map[string]any{}
			for k, y := range x {
				out[k] = y
			}
			y, ok := out[path[0]]
			if !ok {
				return v, false
			}
			if len(path) == 1 && kind == "drop" {
				delete(out, path[0])
				return out, true
			}
			y, ok = edit(y, path[1:], kind)
			out[path[0]] = y
			return out, ok
		case []any:
			i, err := strconv.Atoi(path[0])
			if err != nil || i >= len(x) {
				return v, false
			}
			out := slices.Clone(x)
			if len(path) == 1 && kind == "drop" {
				return slices.Delete(out, i, i+1), true
			}
			y, ok := edit(out[i], path[1:], kind)
			out[i] = y
			return out, ok
		}
		return v, false
	}
	switch kind {
	case "other":
		switch x := v.(type) {
		case string:
			if x == "AVAILABLE" {
				return "NOT_AVAILABLE", true
			}
			return x + "x", true
		case float64:
			return x + 1, true
		case json.Number:
			n, err := x.Int64()
			return n + 1, err == nil
		case map[string]any:
			return map[string]any{}, len(x) > 0
		case []any:
			return []any{}, len(x) > 0
		}
	case "more":
		switch x := v.(type) {
		case []any:
			return append(slices.Clone(x), x[0]), true
		}
	case "null":
		return nil, true
	}
	return v, false
}

// telling says if a change at a place makes a difference to a reader: the
// enum's first value is also what stands for none.
func telling(kind string, path []string, how string) bool {
	last := path[len(path)-1]
	if last == "status" && kind == "complex" && how != "other" {
		return false
	}
	if kind == "list" || kind == "map" {
		// the suite looks at the number of entries only
		return len(path) == 1 || how == "drop"
	}
	return true
}

var suiteCodes = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 101, 102, 103, 200, 201, 202, 300, 301, 302}
var causes = map[int]string{0: "failed to read file: unexpected EOF", 1: "failed to verify JWT token", 100: "1000 req/min exceeded", 302: ".wav is not supported"}

// relay stands between the suite and the reference server.
type relay struct {
	mu     sync.Mutex
	c      *suiteCase
	ref    http.Handler
	hits   int
	total  int
	failed int
}

func (y *relay) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	y.mu.Lock()
	defer y.mu.Unlock()
	c := y.c
	y.total++
	if c.Wait != 0 {
		if c.Wait < 0 || y.failed < c.Wait {
			y.failed++
			if y.failed%2 == 0 {
				panic(http.ErrAbortHandler)
			}
			w.WriteHeader(503)
			return
		}
	}
	if !strings.HasPrefix(r.URL.Path, c.Base) {
		w.WriteHeader(404)
		return
	}
	path := strings.TrimPrefix(r.URL.Path, c.Base)
	body, _ := io.ReadAll(r.Body)
	in := httptest.NewRequest(r.Method, "http://server"+path, bytes.NewReader(body))
	in.Header = r.Header
	rec := httptest.NewRecorder()
	y.ref.ServeHTTP(rec, in)
	status, out := rec.Code, rec.Body.Bytes()
	for k, v := range rec.Header() {
		w.Header()[k] = v
	}
	var v any
	if json.Unmarshal(out, &v) != nil {
		v = nil
	}
	if c.NoCause {
		if x, ok := v.(map[string]any); ok && status != 200 {
			delete(x, "cause")
		}
	}
	method := path[strings.LastIndex(path, "/")+1:]
	if ch := c.Change; ch != nil && ch.Method == method {
		var arg struct{ Code int }
		json.Unmarshal(body, &arg)
		if method != "GetSchemaError" || arg.Code == ch.Code {
			y.hits++
			kind := ch.Kind
			if ch.Once && y.hits > 1 {
				kind = "none"
			}
			switch kind {
			case "none":
			case "abort":
				panic(http.ErrAbortHandler)
			case "no-json":
				if status == 200 {
					out = []byte(ch.Text)
				} else {
					out = []byte("x" + ch.Text)
				}
				v = nil
			case "status":
				if status == 200 {
					status = 500
					v = map[string]any{"error": "WebrpcInternalError", "code": -7, "msg": "internal error", "status": 500}
				} else {
					status = 200
					v = map[string]any{}
				}
			case "short":
				w.Header().Set("Content-Length", strconv.Itoa(len(out)+10))
				w.WriteHeader(status)
				w.Write(out)
				panic(http.ErrAbortHandler)
			default:
				v, _ = edit(v, ch.Path, ch.Kind)
			}
		}
	}
	if v != nil {
		if x, ok := v.(map[string]any); ok && c.Extra {
			x["zzz"] = []any{1, map[string]any{"one": nil}}
		}
		switch c.Layout {
		case 0:
			out, _ = json.Marshal(v)
		case 1:
			out, _ = json.MarshalIndent(v, " ", "\t")
			out = append([]byte("\r\n"), append(out, '\n', ' ')...)
		case 2: // escapes
			out, _ = json.Marshal(v)
			out = bytes.ReplaceAll(out, []byte("o"), []byte("\\u006F"))
		case 3: // as the server wrote it
			if (c.Change == nil || c.Change.Method != method) && !c.Extra && !c.NoCause {
				out = rec.Body.Bytes()
			} else {
				out, _ = json.Marshal(v)
			}
		}
	}
	if c.Slow {
		w.WriteHeader(status)
		for len(out) > 0 {
			n := min(7, len(out))
			w.Write(out[:n])
			w.(http.Flusher).Flush()
			out = out[n:]
		}
		return
	}
	w.WriteHeader(status)
	w.Write(out)
}

var (
	suiteOnce  sync.Once
	suiteRelay *relay
	suiteURL   string
)

func startRelay() {
	suiteRelay = &relay{ref: server.NewTestApiServer(&server.TestServer{})}
	srv := httptest.NewUnstartedServer(suiteRelay)
	srv.Config.ErrorLog = nil
	srv.Start()
	suiteURL = srv.URL
}

// tool runs the command.
func tool(timeout time.Duration, args ...string) (int, string, string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Getenv("VERIF_TEST"), args...)
	var out, errout bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errout
	err := cmd.Run()
	if ctx.Err() != nil {
		return 0, "", "", fmt.Errorf("webrpc-test %q doesn't end", args)
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		return 0, "", "", err
	}
	if strings.Contains(errout.String(), "goroutine ") {
		return 0, "", "", fmt.Errorf("webrpc-test %q crashes:\n%s", args, errout.String())
	}
	return cmd.ProcessState.ExitCode(), out.String(), errout.String(), nil
}

// parseEmbedded parses what the command prints as its schema.
func parseEmbedded(text string, isJSON bool) (*schema.WebRPCSchema, error) {
	if isJSON {
		return schema.ParseSchemaJSON([]byte(text))
	}
	return ridl.NewParser(fstest.MapFS{"a.ridl": {Data: []byte(text)}}, "/", "a.ridl").Parse()
}

func (c *suiteCase) run() error {
	suiteOnce.Do(startRelay)
	suiteRelay.mu.Lock()
	suiteRelay.c, suiteRelay.hits, suiteRelay.total, suiteRelay.failed = c, 0, 0, 0
	suiteRelay.mu.Unlock()
	url := suiteURL + c.Base
	if c.Wait != 0 {
		limit := 30 * time.Second
		if c.Wait < 0 {
			limit = 250 * time.Millisecond
		}
		start := time.Now()
		var err error
		if c.Tool {
			code, _, errout, e := tool(60*time.Second, "-waitForServer", "-url="+url, "-timeout="+limit.String())
			if e != nil {
				return e
			}
			if code != 0 {
				err = fmt.Errorf("exit code %d: %s", code, errout)
				if code != 1 || errout == "" {
					return err
				}
			}
		} else {
			err = client.Wait(url, limit)
		}
		if c.Wait < 0 {
			if err == nil {
				return fmt.Errorf("waiting for a server that is never ready succeeds")
			}
			if time.Since(start) < limit {
				return fmt.Errorf("waiting gives up after %v, the limit is %v", time.Since(start), limit)
			}
			if late := time.Since(start); late > limit+20*time.Second {
				return fmt.Errorf("waiting gives up after %v, the limit is %v", late, limit)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("waiting for a server that is ready at the %dth request: %v", c.Wait+1, err)
		}
		if suiteRelay.total != c.Wait+1 {
			return fmt.Errorf("waiting made %d requests, want %d", suiteRelay.total, c.Wait+1)
		}
		return nil
	}
	var err error
	if c.Tool {
		code, _, errout, e := tool(60*time.Second, "-client", "-url="+url)
		if e != nil {
			return e
		}
		if code != 0 {
			err = fmt.Errorf("%s", errout)
			if code != 1 || errout == "" {
				return fmt.Errorf("exit code %d, %q", code, errout)
			}
		}
	} else {
		err = client.RunTests(context.Background(), url)
	}
	if c.Change == nil && err != nil {
		return fmt.Errorf("a conforming server fails: %v", err)
	}
	if c.Change != nil {
		if suiteRelay.hits == 0 {
			return fmt.Errorf("the suite never calls %s", c.Change.Method)
		}
		if err == nil {
			return fmt.Errorf("a server that answers %s wrongly passes", c.Change.Method)
		}
	}
	if suiteRelay.total < len(methods)-1+len(suiteCodes) {
		return fmt.Errorf("the suite makes %d requests", suiteRelay.total)
	}
	return nil
}

// runSend gives the reference server an argument that differs from what it
// gave out.
func (c *suiteCase) runSend() error {
	in, _ := methodAt(c.Send.Method)
	var v any = fixtures[in]
	ok := true
	if c.Send.Kind != "" {
		v, ok = edit(v, c.Send.Path, c.Send.Kind)
	}
	if !ok {
		return fmt.Errorf("the case is wrong: %v", c.Send)
	}
	body, err := json.Marshal(v)
	if err != nil {
		return err
	}
	r := httptest.NewRequest("POST", "http://server/rpc/TestApi/"+c.Send.Method, bytes.NewReader(body))
	r.Header.Set("Content-Type", "application/json")
	rec := httptest.NewRecorder()
	server.NewTestApiServer(&server.TestServer{}).ServeHTTP(rec, r)
	if c.Send.Kind == "" {
		if rec.Code != 200 {
			return fmt.Errorf("%s of the expected value fails: %d %s", c.Send.Method, rec.Code, rec.Body)
		}
		return nil
	}
	return seenError{8, "UnexpectedValue", "unexpected value", 400, "", true}.onWire(rec.Code, rec.Body.Bytes())
}

// runGet compares what the reference server gives out with the fixtures.
func runGet() error {
	h := server.NewTestApiServer(&server.TestServer{})
	for _, x := range methods {
		if x.Out == "" {
			continue
		}
		r := httptest.NewRequest("POST", "http://server/rpc/TestApi/"+x.Name, strings.NewReader("{}"))
		r.Header.Set("Content-Type", "application/json")
		rec := httptest.NewRecorder()
		h.ServeHTTP(rec, r)
		var v map[string]any
		if err := json.Unmarshal(rec.Body.Bytes(), &v); err != nil || rec.Code != 200 || !reflect.DeepEqual(v, fixtures[x.Out]) {
			return fmt.Errorf("%s gives %d %s, want %v", x.Name, rec.Code, rec.Body, fixtures[x.Out])
		}
	}
	return nil
}

// runServe has the command serve and runs the suite against it.
func (c *suiteCase) runServe() error {
	var last error
	for range 4 { // another process may take the port
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return err
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		done := make(chan error, 1)
		go func() {
			code, _, errout, err := tool(60*time.Second, "-server", "-port="+strconv.Itoa(port), "-timeout=2s")
			if err == nil && code != 0 {
				err = fmt.Errorf("the server ends with %d: %s", code, errout)
			}
			done <- err
		}()
		url := fmt.Sprintf("http://127.0.0.1:%d", port)
		werr := client.Wait(url, 1500*time.Millisecond)
		var rerr error
		if werr == nil {
			rerr = client.RunTests(context.Background(), url)
		}
		serr := <-done
		if serr == nil && werr == nil && rerr == nil {
			if c.Tool { // the port is taken
				l, err := net.Listen("tcp", "0.0.0.0:"+strconv.Itoa(port))
				if err != nil {
					continue
				}
				code, _, errout, err := tool(20*time.Second, "-server", "-port="+strconv.Itoa(port), "-timeout=10s")
				l.Close()
				if err != nil {
					return err
				}
				if code != 1 || errout == "" {
					return fmt.Errorf("serving at a port in use ends with %d, %q", code, errout)
				}
			}
			return nil
		}
		last = fmt.Errorf("server: %v; waiting: %v; tests: %v", serr, werr, rerr)
	}
	return last
}

// runArgs runs the command with arguments of which the outcome is known.
func (c *suiteCase) runArgs() error {
	code, out, errout, err := tool(20*time.Second, c.Args...)
	if err != nil {
		return err
	}
	switch c.Args[0] {
	case "-printRIDL", "-print-schema", "--printRIDL", "-printJSON", "--printJSON":
		if code != 0 {
			return fmt.Errorf("%q ends with %d: %s", c.Args, code, errout)
		}
		s, err := parseEmbedded(out, strings.Contains(c.Args[0], "JSON"))
		if err != nil {
			return fmt.Errorf("%q prints no schema: %v", c.Args, err)
		}
		hash, err := s.SchemaHash()
		if err != nil {
			return err
		}
		if hash != server.WebRPCSchemaHash() || hash != client.WebRPCSchemaHash() {
			return fmt.Errorf("%q prints a schema with the hash %s, client and server were made from %s", c.Args, hash, server.WebRPCSchemaHash())
		}
	case "-version":
		if code != 0 || !strings.HasPrefix(out, "webrpc-test ") {
			return fmt.Errorf("%q ends with %d, %q", c.Args, code, out)
		}
	default:
		if code == 0 || errout == "" {
			return fmt.Errorf("%q ends with %d, %q, %q", c.Args, code, out, errout)
		}
	}
	return nil
}

func genChange(t *rapid.T) *change {
	ch := &change{Method: methods[m.Num(t, "method", 0, len(methods)-1)].Name}
	_, out := methodAt(ch.Method)
	kinds := []string{"abort", "status", "short"}
	switch {
	case ch.Method == "GetError": // any error will do
		ch.Kind = "status"
		return ch
	case ch.Method == "GetSchemaError":
		ch.Code = suiteCodes[m.Num(t, "code", 0, len(suiteCodes)-1)]
		kinds = append(kinds, "no-json", "error", "code", "msg", "status-no", "cause", "drop-error", "drop-msg", "drop-status")
	case out != "":
		kinds = append(kinds, "no-json", "edit", "edit", "edit", "edit", "edit")
	default: // only the status counts
		kinds = []string{"abort", "status"}
	}
	ch.Kind = m.Pick(t, "kind", kinds)
	switch ch.Kind {
	case "no-json":
		ch.Text = m.Pick(t, "text", badJSON)
	case "error", "code", "msg", "cause":
		ch.Path, ch.Kind = []string{ch.Kind}, "other"
		if ch.Path[0] == "cause" && causes[ch.Code] == "" {
			ch.Path[0] = "msg"
		}
	case "status-no":
		ch.Path, ch.Kind = []string{"status"}, "other"
	case "drop-error", "drop-msg", "drop-status":
		ch.Path, ch.Kind = []string{ch.Kind[5:]}, "drop"
	case "edit":
		*ch = genEdit(t, ch.Method, out)
	}
	return ch
}

func genEdit(t *rapid.T, method, kind string) change {
	var all []change
	leaves(any(fixtures[kind]), nil, func(path []string) {
		for _, how := range []string{"other", "drop", "more", "null"} {
			if _, ok := edit(any(fixtures[kind]), path, how); ok && telling(kind, path, how) {
				all = append(all, change{Method: method, Kind: how, Path: path})
			}
		}
	})
	return all[m.Num(t, "edit", 0, len(all)-1)]
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C36",
		Rule: "the conformance suite against a server that writes its responses in various conforming ways and answers one call wrongly, or not; the reference server given arguments with one change; the command with its server, waiting, printing; non-trivial: something is wrong in a response or a request",
		New:  func() any { return &suiteCase{} },
		Setup: func(dir string) error {
			if f := os.Getenv("VERIF_TEST"); !filepath.IsAbs(f) {
				return fmt.Errorf("no command %q", f)
			}
			return nil
		},
		Gen: func(t *rapid.T) any {
			c := &suiteCase{}
			switch m.Num(t, "what", 0, 19) {
			case 0, 1, 2, 3:
				c.Send = &change{Method: m.Pick(t, "send", []string{"SendOne", "SendMulti", "SendComplex"})}
				if m.Num(t, "as-is", 0, 9) > 0 {
					in, _ := methodAt(c.Send.Method)
					*c.Send = genEdit(t, c.Send.Method, in)
				}
				return c
			case 4:
				c.Args = []string{m.Pick(t, "arg", []string{"-printRIDL", "-print-schema", "--printRIDL", "-printJSON", "--printJSON", "-version", "-nope", "--", "x", "-client=maybe"})}
				return c
			case 5:
				c.Wait = m.Num(t, "wait", -1, 4)
			}
			c.Layout = m.Num(t, "layout", 0, 3)
			c.Extra = rapid.Bool().Draw(t, "extra")
			c.NoCause = m.OneIn(t, "no-cause", 3)
			c.Slow = m.OneIn(t, "slow", 4)
			c.Base = m.Pick(t, "base", []string{"", "/a", "/a/b"})
			c.Tool = m.OneIn(t, "tool", 5)
			if c.Wait == 0 && m.Num(t, "conforms", 0, 3) > 0 {
				c.Change = genChange(t)
				if slices.Contains(c.Change.Path, "cause") {
					c.NoCause = false
				}
				c.Change.Once = m.OneIn(t, "once", 4)
			}
			return c
		},
		Enumerate: func(deep bool, yield func(c any) bool) {
			for _, c := range []*suiteCase{{Serve: true}, {Serve: true, Tool: true}} {
				if !yield(c) {
					return
				}
			}
			for _, name := range []string{"GetEmpty", "GetOne", "GetComplex"} {
				ch := change{Method: name, Kind: "status", Once: true}
				if !yield(&suiteCase{Change: &ch}) || !yield(&suiteCase{Change: &ch, Tool: true}) {
					return
				}
			}
			for _, code := range suiteCodes {
				for _, ch := range []change{{Kind: "other", Path: []string{"error"}}, {Kind: "other", Path: []string{"code"}}, {Kind: "other", Path: []string{"msg"}}, {Kind: "other", Path: []string{"status"}}, {Kind: "status"}} {
					ch.Method, ch.Code = "GetSchemaError", code
					if !yield(&suiteCase{Change: &ch}) {
						return
					}
				}
			}
			for _, x := range methods {
				if in, _ := methodAt(x.Name); in != "" && in != "code" {
					ok := true
					leaves(any(fixtures[in]), nil, func(path []string) {
						for _, how := range []string{"other", "drop", "more", "null"} {
							if _, can := edit(any(fixtures[in]), path, how); can && ok && telling(in, path, how) {
								ok = yield(&suiteCase{Send: &change{Method: x.Name, Kind: how, Path: path}})
							}
						}
					})
					if !ok {
						return
					}
				}
				if x.Out == "" {
					continue
				}
				ok := true
				leaves(any(fixtures[x.Out]), nil, func(path []string) {
					for _, how := range []string{"other", "drop", "more", "null"} {
						if _, can := edit(any(fixtures[x.Out]), path, how); can && ok && telling(x.Out, path, how) {
							ok = yield(&suiteCase{Change: &change{Method: x.Name, Kind: how, Path: path}})
						}
					}
				})
				if !ok {
					return
				}
			}
		},
		Quick: 3000, Deep: 60000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*suiteCase)
			o.NonTrivial(c.Change != nil || c.Send != nil && c.Send.Kind != "")
			b, _ := json.Marshal(c)
			o.Sig(string(b))
			o.Sample(c)
			if err := runGet(); err != nil {
				return err
			}
			o.ClassIf(c.Tool, "through the command")
			switch {
			case c.Send != nil:
				o.Class("argument for the reference server")
				return c.runSend()
			case c.Serve:
				o.Class("the command's server")
				return c.runServe()
			case len(c.Args) > 0:
				o.Class("the command")
				return c.runArgs()
			}
			o.ClassIf(c.Wait != 0, "waiting")
			o.ClassIf(c.Change != nil, "one wrong response")
			o.ClassIf(c.Change == nil && c.Wait == 0, "conforming")
			return c.run()
		},
	})
}

package wire

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"

	"github.com/webrpc/webrpc/tests/client"
	"github.com/webrpc/webrpc/tests/server"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// failure is an error of the implementation.
type failure struct {
	Kind     string `json:"kind"` // schema, own, plain
	Index    int    `json:"index,omitempty"`
	Code     int    `json:"code,omitempty"`
	Name     string `json:"name,omitempty"`
	Msg      string `json:"msg,omitempty"`
	Status   int    `json:"status,omitempty"`
	HasCause bool   `json:"hasCause,omitempty"`
	Cause    string `json:"cause,omitempty"`
}

type step struct {
	Method string   `json:"method"`
	Arg    *value   `json:"arg,omitempty"`
	Ret    *value   `json:"ret,omitempty"`
	Err    *failure `json:"err,omitempty"`
	Fault  string   `json:"fault,omitempty"`
	Text   string   `json:"text,omitempty"`
}

type exchangeCase struct {
	Addr  string `json:"addr"`
	Hooks bool   `json:"hooks,omitempty"`
	Steps []step `json:"steps"`
}

type schemaError struct {
	code   int
	name   string
	msg    string
	status int
	srv    server.WebRPCError
	cli    client.WebRPCError
}

// schemaErrors are the errors of the schema, written down once more.
var schemaErrors = []schemaError{
	{1, "Unauthorized", "unauthorized", 401, server.ErrUnauthorized, client.ErrUnauthorized},
	{2, "ExpiredToken", "expired token", 401, server.ErrExpiredToken, client.ErrExpiredToken},
	{3, "InvalidToken", "invalid token", 401, server.ErrInvalidToken, client.ErrInvalidToken},
	{4, "Deactivated", "account deactivated", 403, server.ErrDeactivated, client.ErrDeactivated},
	{5, "ConfirmAccount", "confirm your email", 403, server.ErrConfirmAccount, client.ErrConfirmAccount},
	{6, "AccessDenied", "access denied", 403, server.ErrAccessDenied, client.ErrAccessDenied},
	{7, "MissingArgument", "missing argument", 400, server.ErrMissingArgument, client.ErrMissingArgument},
	{8, "UnexpectedValue", "unexpected value", 400, server.ErrUnexpectedValue, client.ErrUnexpectedValue},
	{100, "RateLimited", "too many requests", 429, server.ErrRateLimited, client.ErrRateLimited},
	{101, "DatabaseDown", "service outage", 503, server.ErrDatabaseDown, client.ErrDatabaseDown},
	{102, "ElasticDown", "search is degraded", 503, server.ErrElasticDown, client.ErrElasticDown},
	{103, "NotImplemented", "not implemented", 501, server.ErrNotImplemented, client.ErrNotImplemented},
	{200, "UserNotFound", "user not found", 400, server.ErrUserNotFound, client.ErrUserNotFound},
	{201, "UserBusy", "user busy", 400, server.ErrUserBusy, client.ErrUserBusy},
	{202, "InvalidUsername", "invalid username", 400, server.ErrInvalidUsername, client.ErrInvalidUsername},
	{300, "FileTooBig", "file is too big (max 1GB)", 400, server.ErrFileTooBig, client.ErrFileTooBig},
	{301, "FileInfected", "file is infected", 400, server.ErrFileInfected, client.ErrFileInfected},
	{302, "FileType", "unsupported file type", 400, server.ErrFileType, client.ErrFileType},
}

// seenError is what has to arrive.
type seenError struct {
	Code     int
	Name     string
	Msg      string
	Status   int
	Cause    string
	AnyCause bool
}

func (f *failure) build() (error, seenError) {
	switch f.Kind {
	case "schema":
		e := schemaErrors[f.Index%len(schemaErrors)]
		out := e.srv
		want := seenError{Code: e.code, Name: e.name, Msg: e.msg, Status: e.status}
		if f.HasCause {
			out = out.WithCause(errors.New(f.Cause))
			want.Cause = f.Cause
		}
		return out, want
	case "own":
		out := server.WebRPCError{Code: f.Code, Name: f.Name, Message: f.Msg, HTTPStatus: f.Status}
		want := seenError{Code: f.Code, Name: f.Name, Msg: f.Msg, Status: f.Status}
		if f.HasCause {
			out = out.WithCausef("%s", f.Cause)
			want.Cause = f.Cause
		}
		return out, want
	}
	return errors.New(f.Cause), seenError{Code: 0, Name: "WebrpcEndpoint", Msg: "endpoint error", Status: 400, Cause: f.Cause}
}

func (w seenError) check(err error) error {
	var got client.WebRPCError
	if err == nil {
		return fmt.Errorf("no error, want %+v", w)
	}
	got, ok := err.(client.WebRPCError)
	if !ok {
		return fmt.Errorf("the error is %T (%v), want a WebRPCError", err, err)
	}
	if got.Code != w.Code || got.Name != w.Name || got.Message != w.Msg || got.HTTPStatus != w.Status || !w.AnyCause && got.Cause != w.Cause {
		return fmt.Errorf("the error is %+v, want %+v", got, w)
	}
	if !w.AnyCause {
		if c := got.Unwrap(); (c != nil) != (w.Cause != "") || c != nil && c.Error() != w.Cause {
			return fmt.Errorf("the cause is %v, want %q", c, w.Cause)
		}
	}
	for _, e := range schemaErrors {
		if is := errors.Is(err, e.cli); is != (e.code == w.Code) {
			return fmt.Errorf("errors.Is(%v, %s) is %v", err, e.name, is)
		}
	}
	return nil
}

// onWire compares the response that carries an error.
func (w seenError) onWire(code int, body []byte) error {
	if code != w.Status {
		return fmt.Errorf("HTTP status %d, want %d", code, w.Status)
	}
	var v map[string]any
	if err := json.Unmarshal(body, &v); err != nil {
		return fmt.Errorf("the error is no JSON: %v\n%s", err, body)
	}
	want := map[string]any{"error": w.Name, "code": float64(w.Code), "msg": w.Msg, "status": float64(w.Status)}
	if w.AnyCause {
		if c, ok := v["cause"].(string); !ok || c == "" {
			return fmt.Errorf("no cause in %s", body)
		}
		delete(v, "cause")
	} else if w.Cause != "" {
		want["cause"] = w.Cause
	}
	if !reflect.DeepEqual(v, want) {
		return fmt.Errorf("the error is sent as %s, want %v", body, want)
	}
	return nil
}

// impl is the implementation of the service: it notes its arguments and gives
// what the step says.
type impl struct {
	step  *step
	calls int
	err   error // something wrong with the call
}

type boom struct{ n int }

func (i *impl) enter(ctx context.Context, method string, args ...any) error {
	i.calls++
	st := i.step
	if st == nil || method != st.Method {
		i.err = fmt.Errorf("method %s is called, want %v", method, st)
		return nil
	}
	if got := server.MethodNameFromContext(ctx); got != method {
		i.err = fmt.Errorf("the context of %s names the method %q", method, got)
	}
	if got := server.ServiceNameFromContext(ctx); got != "TestApi" {
		i.err = fmt.Errorf("the context of %s names the service %q", method, got)
	}
	if r := server.RequestFromContext(ctx); r == nil || r.URL.Path != "/rpc/TestApi/"+method {
		i.err = fmt.Errorf("the context of %s has the request %v", method, r)
	}
	if server.ResponseWriterFromContext(ctx) == nil {
		i.err = fmt.Errorf("the context of %s has no response writer", method)
	}
	in, _ := methodAt(method)
	var want []any
	switch in {
	case "one":
		want = []any{st.Arg.Simple[0].server()}
	case "multi":
		want = []any{st.Arg.Simple[0].server(), st.Arg.Simple[1].server(), st.Arg.Simple[2].server()}
	case "complex":
		want = []any{st.Arg.Complex.server()}
	case "code":
		want = []any{int(st.Arg.Code)}
	}
	if len(args) != len(want) || len(want) > 0 && !reflect.DeepEqual(args, want) {
		g, _ := json.Marshal(args)
		w, _ := json.Marshal(want)
		i.err = fmt.Errorf("%s receives\n%s\nwant\n%s", method, g, w)
	}
	if st.Fault == "panic" {
		panic(boom{i.calls})
	}
	if st.Err != nil {
		err, _ := st.Err.build()
		return err
	}
	return nil
}

func (i *impl) GetEmpty(ctx context.Context) error { return i.enter(ctx, "GetEmpty") }
func (i *impl) GetError(ctx context.Context) error { return i.enter(ctx, "GetError") }
func (i *impl) GetOne(ctx context.Context) (*server.Simple, error) {
	if err := i.enter(ctx, "GetOne"); err != nil || i.err != nil {
		return nil, err
	}
	return i.step.Ret.Simple[0].server(), nil
}
func (i *impl) SendOne(ctx context.Context, one *server.Simple) error {
	return i.enter(ctx, "SendOne", one)
}
func (i *impl) GetMulti(ctx context.Context) (*server.Simple, *server.Simple, *server.Simple, error) {
	if err := i.enter(ctx, "GetMulti"); err != nil || i.err != nil {
		return nil, nil, nil, err
	}
	s := i.step.Ret.Simple
	return s[0].server(), s[1].server(), s[2].server(), nil
}
func (i *impl) SendMulti(ctx context.Context, one, two, three *server.Simple) error {
	return i.enter(ctx, "SendMulti", one, two, three)
}
func (i *impl) GetComplex(ctx context.Context) (*server.Complex, error) {
	if err := i.enter(ctx, "GetComplex"); err != nil || i.err != nil {
		return nil, err
	}
	return i.step.Ret.Complex.server(), nil
}
func (i *impl) SendComplex(ctx context.Context, c *server.Complex) error {
	return i.enter(ctx, "SendComplex", c)
}
func (i *impl) GetEnumList(ctx context.Context) ([]server.Status, error) {
	if err := i.enter(ctx, "GetEnumList"); err != nil || i.err != nil {
		return nil, err
	}
	return listOf(i.step.Ret.Statuses, func(n int) server.Status { return server.Status(n) }), nil
}
func (i *impl) GetEnumMap(ctx context.Context) (map[server.Access]uint64, error) {
	if err := i.enter(ctx, "GetEnumMap"); err != nil || i.err != nil {
		return nil, err
	}
	return mapOf(i.step.Ret.Access, func(n int) server.Access { return server.Access(n) }, same[uint64]), nil
}
func (i *impl) GetSchemaError(ctx context.Context, code int) error {
	return i.enter(ctx, "GetSchemaError", code)
}

// wire carries requests from the client to the server in memory.
type wire struct {
	handler http.Handler
	fault   string
	text    string

	calls int
	path  string
	head  http.Header
	body  []byte
	resp  *httptest.ResponseRecorder
	panic any
}

type failReader struct{ n int }

func (f *failReader) Read(p []byte) (int, error) {
	if f.n > 0 {
		f.n--
		return copy(p, "{"), nil
	}
	return 0, errors.New("the line is dead")
}
func (f *failReader) Close() error { return nil }

func (w *wire) Do(r *http.Request) (*http.Response, error) {
	w.calls++
	w.path, w.head = r.URL.Path, r.Header.Clone()
	if r.Method != "POST" {
		return nil, fmt.Errorf("method %s", r.Method)
	}
	w.body, _ = io.ReadAll(r.Body)
	if w.fault == "transport" {
		return nil, errors.New(w.text)
	}
	in := httptest.NewRequest("POST", "http://server"+strings.TrimPrefix(r.URL.EscapedPath(), w.prefix(r)), bytes.NewReader(w.body))
	in.Header = r.Header.Clone()
	w.serve(in)
	resp := w.resp.Result()
	switch w.fault {
	case "status-text": // a proxy in between answers
		resp.StatusCode = 502
		resp.Body = io.NopCloser(strings.NewReader(w.text))
	case "bad-body":
		resp.Body = io.NopCloser(strings.NewReader(w.text))
	case "cut":
		resp.Body = &failReader{1}
	case "cut-error":
		resp.StatusCode = 500
		resp.Body = &failReader{1}
	}
	return resp, nil
}

func (w *wire) prefix(r *http.Request) string {
	if i := strings.Index(r.URL.EscapedPath(), "/rpc/TestApi/"); i > 0 {
		return r.URL.EscapedPath()[:i]
	}
	return ""
}

func (w *wire) serve(r *http.Request) {
	w.resp = httptest.NewRecorder()
	w.panic = nil
	defer func() { w.panic = recover() }()
	w.handler.ServeHTTP(w.resp, r)
}

var badJSON = []string{"", " ", "{", "nul", "{\"one\":}", "[1]", "\"x\"", "5", "{\"one\":{},}", "}{", "{\"one\":{}} x", "\x00", "<html>"}
var wrongJSON = map[string][]string{
	"one":     {`{"one":5}`, `{"one":[]}`, `{"one":"x"}`, `{"one":{"id":"1"}}`, `{"one":{"id":1.5}}`, `{"one":{"id":99999999999999999999}}`, `{"one":{"name":7}}`},
	"multi":   {`{"one":{},"two":{},"three":4}`, `{"two":"x"}`, `{"one":{"id":[]}}`},
	"complex": {`{"complex":[]}`, `{"complex":{"namesList":{}}}`, `{"complex":{"numsList":[1.5]}}`, `{"complex":{"user":{"id":-1}}}`, `{"complex":{"meta":[]}}`, `{"complex":{"metaNestedExample":{"a":{"b":4294967296}}}}`, `{"complex":{"status":1}}`, `{"complex":{"doubleArray":["a"]}}`},
	"code":    {`{"code":"1"}`, `{"code":1.5}`, `{"code":[]}`, `{"code":{}}`, `{"code":18446744073709551616}`},
}
var goodTypes = []string{"application/json", "application/json; charset=utf-8", "APPLICATION/JSON", " application/json ;q=1", "Application/Json;"}
var badTypes = []string{"", "text/plain", "application/jsonx", "application/x-www-form-urlencoded", "json", "text/json", ";application/json", "application / json"}
var badPaths = []string{"/", "/rpc", "/rpc/", "/rpc/TestApi", "/rpc/TestApi/", "/rpc/TestApi/Nope", "/rpc/TestApi/getEmpty", "/rpc/TestApi/GetEmpty/", "/TestApi/GetEmpty", "/rpc/testapi/GetEmpty", "/rpc//TestApi/GetEmpty", "/rpc/TestApi/GetOne/GetOne", "/x/rpc/TestApi/GetOne", "/rpc/TestApi/GetEmptyX", "/rpc/Other/GetEmpty"}
var otherMethods = []string{"GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "post"}

var addrs = []string{"http://server", "http://server/", "http://server:8080", "http://server/base", "http://server/base/", "http://server/a/b?x=1", "http://server/#frag", "https://u@server/base?q#f"}

func basePath(addr string) string {
	switch {
	case strings.Contains(addr, "/a/b"):
		return "/a/b"
	case strings.Contains(addr, "/base"):
		return "/base"
	}
	return ""
}

func genStep(t *rapid.T, hooks bool) step {
	st := step{Method: methods[m.Num(t, "method", 0, len(methods)-1)].Name}
	in, out := methodAt(st.Method)
	if in != "" {
		st.Arg = genValue(t, in)
	}
	if out != "" {
		st.Ret = genValue(t, out)
	}
	switch m.Num(t, "outcome", 0, 5) {
	case 3, 4:
		f := &failure{Kind: m.Pick(t, "err", []string{"schema", "own", "plain"}), HasCause: rapid.Bool().Draw(t, "has-cause"), Cause: genString(t, "cause")}
		switch f.Kind {
		case "schema":
			f.Index = m.Num(t, "err-index", 0, len(schemaErrors)-1)
		case "own":
			f.Code = int(int32(genInt(t, "err-code")))
			f.Name, f.Msg = genString(t, "err-name"), genString(t, "err-msg")
			f.Status = m.Num(t, "err-status", 400, 599)
		}
		st.Err = f
	case 5:
		faults := []string{"path", "method", "type", "panic", "transport", "status-text", "cut-error", "cancelled", "headers"}
		if in != "" {
			faults = append(faults, "bad-json", "wrong-json", "read-error", "missing", "extra")
		} else {
			faults = append(faults, "any-body")
		}
		if out != "" {
			faults = append(faults, "bad-body", "cut")
		}
		if hooks {
			faults = append(faults, "on-request", "on-request-rpc")
		}
		st.Fault = m.Pick(t, "fault", faults)
		switch st.Fault {
		case "path":
			st.Text = m.Pick(t, "path", badPaths)
		case "method":
			st.Text = m.Pick(t, "http-method", otherMethods)
		case "type":
			st.Text = m.Pick(t, "type", append(badTypes, goodTypes...))
		case "bad-json", "status-text", "bad-body", "any-body":
			st.Text = m.Pick(t, "bad-json", badJSON)
		case "wrong-json":
			st.Text = m.Pick(t, "wrong-json", wrongJSON[in])
		case "transport", "on-request":
			st.Text = "e" + genString(t, "text")
		}
	}
	return st
}

// call has the client call the method of the step and compares the result.
func (st *step) call(ctx context.Context, c client.TestApiClient, want *value) (error, error) {
	diff := func(got, w any) error {
		if reflect.DeepEqual(got, w) {
			return nil
		}
		g, _ := json.Marshal(got)
		x, _ := json.Marshal(w)
		return fmt.Errorf("%s gives\n%s %#v\nwant\n%s %#v", st.Method, g, got, x, w)
	}
	if want == nil {
		want = &value{Simple: []*simple{nil, nil, nil}}
	}
	switch st.Method {
	case "GetEmpty":
		return c.GetEmpty(ctx), nil
	case "GetError":
		return c.GetError(ctx), nil
	case "GetOne":
		v, err := c.GetOne(ctx)
		return err, diff(v, want.Simple[0].client())
	case "SendOne":
		return c.SendOne(ctx, st.Arg.Simple[0].client()), nil
	case "GetMulti":
		a, b, d, err := c.GetMulti(ctx)
		return err, diff([]*client.Simple{a, b, d}, []*client.Simple{want.Simple[0].client(), want.Simple[1].client(), want.Simple[2].client()})
	case "SendMulti":
		s := st.Arg.Simple
		return c.SendMulti(ctx, s[0].client(), s[1].client(), s[2].client()), nil
	case "GetComplex":
		v, err := c.GetComplex(ctx)
		return err, diff(v, want.Complex.client())
	case "SendComplex":
		return c.SendComplex(ctx, st.Arg.Complex.client()), nil
	case "GetEnumList":
		v, err := c.GetEnumList(ctx)
		return err, diff(v, listOf(want.Statuses, func(n int) client.Status { return client.Status(n) }))
	case "GetEnumMap":
		v, err := c.GetEnumMap(ctx)
		return err, diff(v, mapOf(want.Access, func(n int) client.Access { return client.Access(n) }, same[uint64]))
	case "GetSchemaError":
		return c.GetSchemaError(ctx, int(st.Arg.Code)), nil
	}
	panic(st.Method)
}

type world struct {
	impl     *impl
	wire     *wire
	client   client.TestApiClient
	addr     string
	onErrors []server.WebRPCError
	requests int
	reject   error
}

// raw sends a request that the client wouldn't make.
func (w *world) raw(method, path, ctype, body string, fail bool) {
	r := httptest.NewRequest("POST", "http://server"+path, strings.NewReader(body))
	r.Method = method
	if fail {
		r.Body = &failReader{2}
	}
	r.Header.Set("Content-Type", ctype)
	if ctype == "" {
		r.Header.Del("Content-Type")
	}
	w.wire.serve(r)
}

var (
	badRoute   = seenError{-2, "WebrpcBadRoute", "bad route", 404, "", true}
	badMethod  = seenError{-3, "WebrpcBadMethod", "bad method", 405, "", true}
	badRequest = seenError{-4, "WebrpcBadRequest", "bad request", 400, "", true}
	panicked   = seenError{-6, "WebrpcServerPanic", "server panic", 500, "", true}
)

func (w *world) run(st *step, o *pbt.Obs) error {
	in, out := methodAt(st.Method)
	path := "/rpc/TestApi/" + st.Method
	w.impl.step, w.impl.calls, w.impl.err = st, 0, nil
	w.onErrors, w.requests, w.reject = nil, 0, nil
	*w.wire = wire{handler: w.wire.handler}
	argJSON := "{}"
	if in != "" {
		b, err := json.Marshal(wireJSON(in, st.Arg))
		if err != nil {
			return err
		}
		argJSON = string(b)
	}
	o.ClassIf(st.Fault != "", "fault: "+st.Fault)

	// refused checks a request that the server has to refuse.
	refused := func(want seenError, calls int, hooked bool) error {
		if w.impl.calls != calls {
			return fmt.Errorf("the implementation is called %d times, want %d", w.impl.calls, calls)
		}
		if w.wire.resp == nil {
			return fmt.Errorf("no response")
		}
		if err := want.onWire(w.wire.resp.Code, w.wire.resp.Body.Bytes()); err != nil {
			return err
		}
		if len(w.onErrors) != 1 || w.onErrors[0].Code != want.Code {
			return fmt.Errorf("OnError is told %v, want one error with code %d", w.onErrors, want.Code)
		}
		if n := map[bool]int{true: 1}[hooked]; w.requests != n {
			return fmt.Errorf("OnRequest is asked %d times, want %d", w.requests, n)
		}
		return nil
	}
	switch st.Fault {
	case "path":
		w.raw("POST", st.Text, "application/json", argJSON, false)
		return refused(badRoute, 0, false)
	case "method":
		w.raw(st.Text, path, "application/json", argJSON, false)
		if got := w.wire.resp.Header().Get("Allow"); got != "POST" {
			return fmt.Errorf("header Allow is %q", got)
		}
		return refused(badMethod, 0, false)
	case "type":
		w.raw("POST", path, st.Text, argJSON, false)
		for _, x := range goodTypes {
			if st.Text == x {
				if w.impl.err != nil || w.impl.calls != 1 || w.wire.resp.Code != 200 {
					return fmt.Errorf("content type %q: %d calls, status %d, %v", st.Text, w.impl.calls, w.wire.resp.Code, w.impl.err)
				}
				return nil
			}
		}
		return refused(badRequest, 0, false)
	case "bad-json":
		w.raw("POST", path, "application/json", st.Text, false)
		return refused(badRequest, 0, true)
	case "wrong-json":
		w.raw("POST", path, "application/json", st.Text, false)
		return refused(badRequest, 0, true)
	case "read-error":
		w.raw("POST", path, "application/json", "", true)
		return refused(badRequest, 0, true)
	case "any-body": // a method without arguments doesn't look at the body
		w.raw("POST", path, "application/json", st.Text, false)
		if w.impl.err != nil || w.impl.calls != 1 || w.wire.resp.Code != 200 {
			return fmt.Errorf("%d calls, status %d, %v", w.impl.calls, w.wire.resp.Code, w.impl.err)
		}
		return nil
	case "missing": // an argument that isn't given has its zero value
		zero := &value{Simple: []*simple{nil, nil, nil}}
		cp := *st
		cp.Arg = zero
		w.impl.step = &cp
		w.raw("POST", path, "application/json", "{}", false)
		if w.impl.err != nil || w.impl.calls != 1 || w.wire.resp.Code != 200 {
			return fmt.Errorf("%d calls, status %d, %v", w.impl.calls, w.wire.resp.Code, w.impl.err)
		}
		return nil
	case "extra": // unknown members don't matter
		w.raw("POST", path, "application/json", " {\"unknown\": [1, {\"one\": 5}],\n"+argJSON[1:len(argJSON)-1]+", \"zzz\": null }\n", false)
		if w.impl.err != nil || w.impl.calls != 1 || w.wire.resp.Code != 200 {
			return fmt.Errorf("%d calls, status %d, %v", w.impl.calls, w.wire.resp.Code, w.impl.err)
		}
		return nil
	case "panic":
		w.raw("POST", path, "application/json", argJSON, false)
		if w.impl.err != nil {
			return w.impl.err
		}
		if b, ok := w.wire.panic.(boom); !ok || b.n != 1 {
			return fmt.Errorf("the panic of the implementation comes out as %v", w.wire.panic)
		}
		return refused(panicked, 1, true)
	case "on-request":
		w.reject = errors.New(st.Text)
		w.raw("POST", path, "application/json", argJSON, false)
		return refused(seenError{0, "WebrpcEndpoint", "endpoint error", 400, st.Text, false}, 0, true)
	case "on-request-rpc":
		w.reject = server.ErrRateLimited
		w.raw("POST", path, "application/json", argJSON, false)
		return refused(seenError{100, "RateLimited", "too many requests", 429, "", false}, 0, true)
	}

	ctx := context.Background()
	w.wire.fault, w.wire.text = st.Fault, st.Text
	var want *seenError
	calls, sent := 1, 1
	switch st.Fault {
	case "transport":
		want = &seenError{-1, "WebrpcRequestFailed", "request failed", 400, st.Text, false}
		calls = 0
	case "status-text", "cut-error", "bad-body", "cut":
		want = &seenError{-5, "WebrpcBadResponse", "bad response", 500, "", true}
	case "cancelled":
		c, cancel := context.WithCancel(ctx)
		cancel()
		ctx = c
		want = &seenError{-1, "WebrpcRequestFailed", "request failed", 400, "", true}
		calls, sent = 0, 0
	case "headers":
		h := http.Header{"Authorization": {"BEARER x"}, "X-Many": {"1", "2"}}
		c, err := client.WithHTTPRequestHeaders(ctx, h)
		if err != nil {
			return err
		}
		h.Set("Authorization", "other") // the caller's header is its own
		ctx = c
		for _, x := range []string{"Accept", "Content-Type"} {
			if _, err := client.WithHTTPRequestHeaders(ctx, http.Header{x: {"a"}}); err == nil {
				return fmt.Errorf("the header %s can be replaced", x)
			}
		}
	}
	var serr *seenError
	if st.Err != nil {
		_, e := st.Err.build()
		serr = &e
		if want == nil {
			want = serr
		}
	}
	expect := st.Ret
	if want != nil {
		expect = nil
	}
	got, diff := st.call(ctx, w.client, expect)
	if w.impl.err != nil {
		return w.impl.err
	}
	if w.impl.calls != calls || w.wire.calls != sent {
		return fmt.Errorf("%d requests and %d calls, want %d and %d", w.wire.calls, w.impl.calls, sent, calls)
	}
	if want != nil {
		if err := want.check(got); err != nil {
			return err
		}
		if st.Fault == "cancelled" && !errors.Is(got, context.Canceled) {
			return fmt.Errorf("the error %v isn't context.Canceled", got)
		}
	} else if got != nil {
		return fmt.Errorf("%s fails: %v", st.Method, got)
	}
	if diff != nil && st.Fault != "bad-body" && st.Fault != "cut" {
		return diff
	}
	if sent == 0 {
		return nil
	}

	// what was sent
	if w.wire.path != basePath(w.addr)+path {
		return fmt.Errorf("the request goes to %q, the address is %q", w.wire.path, w.addr)
	}
	for k, v := range map[string]string{"Content-Type": "application/json", "Accept": "application/json", "Webrpc": "webrpc;gen-golang;Test@v1.0.0"} {
		if g := w.wire.head.Values(k); len(g) != 1 || g[0] != v {
			return fmt.Errorf("request header %s is %q, want %q", k, g, v)
		}
	}
	if st.Fault == "headers" && (w.wire.head.Get("Authorization") != "BEARER x" || len(w.wire.head.Values("X-Many")) != 2) {
		return fmt.Errorf("the request has the headers %v", w.wire.head)
	}
	if in != "" {
		if err := sameJSON("the body of the request", w.wire.body, wireJSON(in, st.Arg)); err != nil {
			return err
		}
	}
	if calls == 0 {
		return nil
	}
	// what came back
	resp := w.wire.resp
	if g := resp.Header().Get("Content-Type"); g != "application/json" {
		return fmt.Errorf("response header Content-Type is %q", g)
	}
	if g := resp.Header().Get("Webrpc"); g != server.WebrpcHeaderValue {
		return fmt.Errorf("response header Webrpc is %q", g)
	}
	if w.requests != 1 {
		return fmt.Errorf("OnRequest is asked %d times", w.requests)
	}
	if serr != nil {
		if len(w.onErrors) > 1 || len(w.onErrors) == 1 && w.onErrors[0].Code != serr.Code {
			return fmt.Errorf("OnError is told %v", w.onErrors)
		}
		return serr.onWire(resp.Code, resp.Body.Bytes())
	}
	if resp.Code != 200 || len(w.onErrors) > 0 {
		return fmt.Errorf("HTTP status %d, errors %v", resp.Code, w.onErrors)
	}
	return sameJSON("the body of the response", resp.Body.Bytes(), wireJSON(out, st.Ret))
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C35",
		Rule: "a history of calls of the reference client to the reference server with random arguments, results, errors and faults of requests and responses; non-trivial: three calls, one with a value and one with an error or a fault",
		New:  func() any { return &exchangeCase{} },
		Gen: func(t *rapid.T) any {
			c := &exchangeCase{Addr: m.Pick(t, "addr", addrs), Hooks: rapid.Bool().Draw(t, "hooks")}
			for n := m.Num(t, "steps", 1, 8); n > 0; n-- {
				c.Steps = append(c.Steps, genStep(t, true))
			}
			return c
		},
		Quick: 12000, Deep: 400000,
		Check: func(v any, o *pbt.Obs) error {
			c := v.(*exchangeCase)
			w := &world{impl: &impl{}, wire: &wire{}, addr: c.Addr}
			opts := &server.Options{
				OnError: func(r *http.Request, e *server.WebRPCError) { w.onErrors = append(w.onErrors, *e) },
				OnRequest: func(rw http.ResponseWriter, r *http.Request) error {
					w.requests++
					return w.reject
				},
			}
			w.wire.handler = server.NewTestApiServer(w.impl, opts)
			w.client = client.NewTestApiClient(c.Addr, w.wire)
			if c.Hooks { // the unified client and the routes one by one
				w.client = client.NewClient(c.Addr, w.wire).TestApi
			}
			all := server.Server{TestApi: w.impl}.Methods(opts)
			names := map[string]bool{}
			for _, x := range all {
				names[x.Path] = x.Handler != nil && x.Service() == "TestApi" && x.Path == "/rpc/TestApi/"+x.Name()
			}
			for _, x := range methods {
				if !names["/rpc/TestApi/"+x.Name] || len(all) != len(methods) {
					return fmt.Errorf("the routes are %v", names)
				}
			}
			vals, errs := 0, 0
			for i := range c.Steps {
				st := &c.Steps[i]
				if st.Arg != nil || st.Ret != nil {
					vals++
				}
				if st.Err != nil || st.Fault != "" {
					errs++
				}
				o.Class(st.Method)
				if err := w.run(st, o); err != nil {
					b, _ := json.Marshal(st)
					return fmt.Errorf("step %d, %s: %v\n%s", i, st.Method, err, b)
				}
			}
			o.NonTrivial(len(c.Steps) >= 3 && vals > 0 && errs > 0)
			b, _ := json.Marshal(c)
			o.Sig(string(b))
			if len(b) < 4000 {
				o.Sample(c)
			}
			return nil
		},
	})
}

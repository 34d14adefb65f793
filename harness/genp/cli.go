package genp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strings"
	"time"

	"github.com/webrpc/webrpc"
	"github.com/webrpc/webrpc/gen"
	"github.com/webrpc/webrpc/schema"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// C29: the command line composes like the library.
type annReq struct {
	Name   string `json:"name"`
	Val    string `json:"val,omitempty"`
	HasVal bool   `json:"hasVal,omitempty"`
}

func (a annReq) arg() string {
	if a.HasVal {
		return "@" + a.Name + ":" + a.Val
	}
	return "@" + a.Name
}

type cliCase struct {
	Src      source    `json:"src"`
	Path     int       `json:"path,omitempty"`    // spelling of the schema file
	Target   string    `json:"target,omitempty"`  // json, debug, tmpl, cached, local-go, broken-go or an embedded one
	Service  *[]string `json:"service,omitempty"` // -service
	Shake    bool      `json:"shake,omitempty"`   // -methodTreeShake
	Match    []annReq  `json:"match,omitempty"`
	Ignore   []annReq  `json:"ignore,omitempty"`
	Version  *string   `json:"version,omitempty"` // -schemaVersion
	Env      *string   `json:"env,omitempty"`     // WEBRPC_SCHEMA_VERSION
	Opts     []string  `json:"opts,omitempty"`    // options of the template, as written
	Flags    []string  `json:"flags,omitempty"`   // other flags of the tool
	NoFmt    bool      `json:"noFmt,omitempty"`
	Silent   bool      `json:"silent,omitempty"`
	Old      bool      `json:"old,omitempty"`    // the cached templates are old
	Remote   string    `json:"remote,omitempty"` // the remote can be reached; "none": and nothing is cached, "blocked": and nothing can be
	Out      string    `json:"out,omitempty"`    // -out
	Exists   bool      `json:"exists,omitempty"` // the output file is there already
	Perm     []int     `json:"perm,omitempty"`   // order of the arguments
	Fault    string    `json:"fault,omitempty"`
	FaultArg string    `json:"faultArg,omitempty"`
}

const oldContent = "what was in the file before, which is rather longer than it has to be\n"

type cliRun struct {
	code        int
	out, errout string
}

// tool runs the command in a directory.
func tool(dir string, env []string, args []string) (*cliRun, error) {
	bin := os.Getenv("VERIF_CLI")
	if bin == "" {
		return nil, pbt.Harness(errors.New("VERIF_CLI isn't set"))
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = os.Environ() // formatting may ask the go command
	cmd.Env = append(cmd.Env, "TMPDIR="+filepath.Join(dir, "tmp"), "http_proxy=http://127.0.0.1:9", "https_proxy=http://127.0.0.1:9")
	cmd.Env = append(cmd.Env, env...)
	var out, errout bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errout
	err := cmd.Run()
	r := &cliRun{out: out.String(), errout: errout.String()}
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		return nil, fmt.Errorf("webrpc-gen %q doesn't end", args)
	case errors.As(err, &ee):
		r.code = ee.ExitCode()
		if r.code < 0 || strings.Contains(r.errout, "goroutine 1 [") {
			return nil, fmt.Errorf("webrpc-gen %q crashes: %v\n%s", args, err, excerpt(r.errout))
		}
	case err != nil:
		return nil, pbt.Harness(err)
	}
	return r, nil
}

// template of the target "tmpl": it says everything that the flags influence
const cliTemplate = viewTemplate + `{{- define "main" -}}
{{- stderrPrint "first message" 1 2 " " "\n" -}}
{{- stderrPrintf "message of the %s, %d%%\n" "template" 100 -}}
{{- if exists .Opts "help"}}Help of {{.WebrpcTarget}}:{{range $k, $v := .Opts}} {{$k}}={{$v}}{{end}} end of help
{{else}}{{template "view" .}}hash {{.SchemaHash}}
header {{.WebrpcHeader}}
target {{printf "%q" .WebrpcTarget}}
command {{.WebrpcGenCommand}}
{{range $k, $v := .Opts}}opt {{printf "%q" $k}} {{printf "%q" $v}}
{{end}}{{end}}
{{- end -}}
`

var faultTemplates = map[string]string{
	"no-main":     `{{define "other"}}x{{end}}`,
	"bad-tmpl":    `{{define "main"}}{{.SchemaName}{{end}}`,
	"exec-err":    `{{define "main"}}text {{get .Opts "there is no such option"}}{{end}}`,
	"unknown-fn":  `{{define "main"}}{{nosuchfunction 1}}{{end}}`,
	"unknown-var": `{{define "main"}}{{.NoSuchThing}}{{end}}`,
	"panic":       `{{define "main"}}text {{join 1 ","}}{{end}}`,
	"exit":        `{{define "main"}}text {{stderrPrintf "last words"}}{{exit N}} more{{end}}`,
}

func (c *cliCase) schemaFile() string {
	if c.Src.IsJSON {
		return "api.json"
	}
	return "api.ridl"
}

func (c *cliCase) schemaPath(dir string) string {
	f := c.schemaFile()
	switch c.Path {
	case 1:
		return "./" + f
	case 2:
		return "sub/../" + f
	case 3:
		return filepath.Join(dir, f)
	case 4:
		return "../" + filepath.Base(dir) + "/" + f
	}
	return f
}

func (c *cliCase) targetPath() string {
	switch c.Target {
	case "tmpl":
		return "./templates"
	case "local-go", "broken-go":
		return "./gen-golang"
	case "cached":
		return "github.com/o/gen-cli@v1.0.0"
	}
	return c.Target
}

// refreshes: templates are to be fetched.
func refreshes(args []string) bool {
	on := false
	for _, f := range args {
		switch strings.TrimLeft(f, "-") {
		case "refreshCache":
			on = true
		case "refreshCache=false", "refreshCache=0":
			on = false
		}
	}
	return on
}

// args are the arguments, in order.
func (c *cliCase) args(dir string) []string {
	var out []string
	add := func(name, val string) { out = append(out, "-"+name+"="+val) }
	if c.Fault != "no-schema" {
		add("schema", c.schemaPath(dir))
	}
	if c.Fault != "no-target" {
		add("target", c.targetPath())
	}
	if c.Service != nil {
		add("service", strings.Join(*c.Service, ","))
	}
	if c.Shake {
		out = append(out, "-methodTreeShake")
	}
	join := func(as []annReq) string {
		var s []string
		for _, a := range as {
			s = append(s, a.arg())
		}
		return strings.Join(s, ",")
	}
	if len(c.Match) > 0 {
		add("match", join(c.Match))
	}
	if len(c.Ignore) > 0 {
		add("ignore", join(c.Ignore))
	}
	if c.Version != nil {
		add("schemaVersion", *c.Version)
	}
	if c.NoFmt {
		add("fmt", "false")
	}
	if c.Silent {
		out = append(out, "-silent")
	}
	if c.Out != "" {
		add("out", c.outArg(dir))
	}
	out = append(out, c.Flags...)
	out = append(out, c.Opts...)
	switch c.Fault {
	case "plain-arg", "dash", "bad-bool", "bad-annot":
		out = append(out, c.FaultArg)
	}
	sorted := make([]string, 0, len(out))
	done := make([]bool, len(out))
	// repeated options keep their order
	for _, i := range c.Perm {
		if i < len(out) && !done[i] {
			done[i] = true
			sorted = append(sorted, out[i])
		}
	}
	for i, a := range out {
		if !done[i] {
			sorted = append(sorted, a)
		}
	}
	return sorted
}

func (c *cliCase) outArg(dir string) string { return strings.ReplaceAll(c.Out, "{dir}", dir) }

func (c *cliCase) outFile(dir string) string {
	if c.Out == "" || c.Out == "stdout" {
		return ""
	}
	if p := c.outArg(dir); strings.HasPrefix(p, "/") {
		return p
	}
	return filepath.Join(dir, c.Out)
}

// options are those that the template gets.
func options(args []string) map[string]any {
	known := []string{"version", "schema", "schemaVersion", "target", "out", "fmt", "refreshCache", "silent", "service", "methodTreeShake", "ignore", "match"}
	out := map[string]any{}
	for _, a := range args {
		name, val, _ := strings.Cut(a, "=")
		name = strings.TrimLeft(name, "-")
		if !slices.Contains(known, name) {
			out[name] = val
		}
	}
	return out
}

func (c *cliCase) request(as []annReq) map[string]string {
	out := map[string]string{}
	for _, a := range as {
		out[a.Name] = a.Val
	}
	return out
}

// library does what the command should do.
func (c *cliCase) library(dir string) (*schema.WebRPCSchema, error) {
	s, err := webrpc.ParseSchemaFile(c.schemaPath(dir))
	if err != nil {
		return nil, fmt.Errorf("a valid schema is rejected: %v\n%s", err, excerpt(c.Src.text()))
	}
	if s.BasePath == "" && len(s.Services) > 0 {
		s.BasePath = "/rpc/"
	}
	if v := c.version(); v != nil {
		s.SchemaVersion = *v
	}
	names := c.names()
	if c.Shake && len(names) > 0 {
		s = schema.MethodTreeShake(s, slices.Clone(names))
	}
	if len(names) > 0 {
		s = schema.MatchServices(s, slices.Clone(names))
	}
	if len(c.Ignore) > 0 {
		s = schema.IgnoreMethodsWithAnnotations(s, c.request(c.Ignore))
	}
	if len(c.Match) > 0 {
		s = schema.MatchMethodsWithAnnotations(s, c.request(c.Match))
	}
	return s, nil
}

// names are the services to select; an empty flag selects all.
func (c *cliCase) names() []string {
	if c.Service == nil || strings.Join(*c.Service, ",") == "" {
		return nil
	}
	return *c.Service
}

func (c *cliCase) version() *string {
	if c.Version != nil && *c.Version != "$WEBRPC_SCHEMA_VERSION" {
		return c.Version
	}
	if c.Env != nil && *c.Env != "" {
		return c.Env
	}
	return nil
}

// expected is the schema according to the model.
func (c *cliCase) expected() *m.Schema {
	out := *c.Src.Schema
	s := &out
	if s.BasePath == "" && len(s.Services) > 0 {
		s.BasePath = "/rpc/"
	}
	if v := c.version(); v != nil {
		s.Version = *v
	}
	names := c.names()
	if c.Shake && len(names) > 0 {
		s = m.KeepTypes(s, m.Reachable(s, names))
	}
	s = m.Select(s, names)
	if len(c.Ignore) > 0 {
		s, _, _ = m.Filter(s, c.request(c.Ignore), false)
	}
	if len(c.Match) > 0 {
		s, _, _ = m.Filter(s, c.request(c.Match), true)
	}
	return s
}

func (c *cliCase) setup(dir string) error {
	put := func(p, text string) error {
		p = filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return pbt.Harness(err)
		}
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			return pbt.Harness(err)
		}
		return nil
	}
	src := c.Src.text()
	file := c.schemaFile()
	switch c.Fault {
	case "missing-file":
		file = "other" + file
	case "extension":
		file = "api.txt"
	case "invalid":
		src = c.FaultArg
	}
	tmpl := cliTemplate
	if t := faultTemplates[c.Fault]; t != "" {
		tmpl = strings.ReplaceAll(t, "exit N", "exit "+c.FaultArg)
	}
	broken := goTemplate
	if c.Target == "broken-go" {
		broken = strings.ReplaceAll(broken, `{{if exists .Opts "broken"}}func ({{end}}`, "func (")
	}
	files := map[string]string{file: src, "templates/main.go.tmpl": tmpl, "templates/ignored.tmpl": "{{", "gen-golang/main.go.tmpl": broken, "sub/x": "", "tmp/x": "", "file": ""}
	for _, name := range m.SortedKeys(files) {
		if err := put(name, files[name]); err != nil {
			return err
		}
	}
	if f := c.outFile(dir); f != "" && c.Exists {
		rel, err := filepath.Rel(dir, f)
		if err != nil {
			return pbt.Harness(err)
		}
		return put(rel, oldContent)
	}
	return nil
}

func cliHub(text string) *hub {
	return &hub{published: map[string]version{"o/gen-cli/@v1.0.0": {id: "cli"}}, texts: map[string]string{"main.go.tmpl": text}}
}

// newTemplate is what the remote has when the tool runs.
var newTemplate = strings.Replace(cliTemplate, "\nheader ", "\nnew templates\nheader ", 1)

// fetches: the tool fetches the templates.
func (c *cliCase) fetches(args []string) bool {
	return c.Target == "cached" && c.Remote != "" && (c.Remote != "works" || c.Old || refreshes(args))
}

// fill caches the templates of a remote target.
func (c *cliCase) fill(dir string) error {
	if c.Remote == "none" {
		return nil
	}
	if c.Remote == "blocked" {
		_, err := block(filepath.Join(dir, "tmp", "webrpc-cache", cacheName(c.targetPath())), "dir", "")
		return err
	}
	h := cliHub(cliTemplate)
	defer surround(filepath.Join(dir, "tmp"), h)()
	out, err := gen.Generate(empty(), c.targetPath(), &gen.Config{TemplateOptions: map[string]any{}})
	if err != nil || out.CacheRefreshErr != nil {
		return fmt.Errorf("templates can't be fetched: %v, %v", err, out)
	}
	if !c.Old {
		return nil
	}
	stamp := filepath.Join(out.TmplDir, ".webrpc-gen-timestamp")
	if _, err := os.Stat(stamp); err != nil {
		return fmt.Errorf("no time in the cache: %v", err)
	}
	if err := os.WriteFile(stamp, []byte(fmt.Sprint(time.Now().Unix()-2*ttl-5)), 0o644); err != nil {
		return pbt.Harness(err)
	}
	return nil
}

// tree lists the files below a directory, apart from the caches.
func tree(dir string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		out[rel] = string(b)
		return err
	})
	if err != nil {
		return nil, pbt.Harness(err)
	}
	return out, nil
}

func inDir(dir string, args []string, f func() error) error {
	old, err := os.Getwd()
	if err != nil {
		return pbt.Harness(err)
	}
	oldArgs := os.Args
	defer func() {
		os.Args = oldArgs
		if err := os.Chdir(old); err != nil {
			panic(pbt.Harness(err))
		}
	}()
	if err := os.Chdir(dir); err != nil {
		return pbt.Harness(err)
	}
	os.Args = append([]string{os.Getenv("VERIF_CLI")}, args...)
	return f()
}

func (c *cliCase) check(o *pbt.Obs) error {
	root, err := os.MkdirTemp(pbt.Scratch, "cli-")
	if err != nil {
		return pbt.Harness(err)
	}
	if root, err = filepath.EvalSymlinks(root); err != nil {
		return pbt.Harness(err)
	}
	defer os.RemoveAll(root)
	dir := filepath.Join(root, "w")
	if err := os.Mkdir(dir, 0o755); err != nil {
		return pbt.Harness(err)
	}
	if err := c.setup(dir); err != nil {
		return err
	}
	if c.Target == "cached" {
		if err := c.fill(dir); err != nil {
			return err
		}
	}
	args := c.args(dir)
	before, err := tree(root)
	if err != nil {
		return err
	}
	var env []string
	if c.Env != nil {
		env = append(env, "WEBRPC_SCHEMA_VERSION="+*c.Env)
	}
	h := &hub{fault: "down"}
	if c.Target == "cached" && c.Remote != "" {
		h = cliHub(newTemplate)
		p, err := theProxy()
		if err != nil {
			return pbt.Harness(err)
		}
		way, err := p.use(filepath.Dir(dir), h)
		if err != nil {
			return err
		}
		env = append(env, way...)
		if before, err = tree(root); err != nil {
			return err
		}
	}
	r, err := tool(dir, env, args)
	if err != nil {
		return err
	}
	requests := h.requests
	after, err := tree(root)
	if err != nil {
		return err
	}
	shown := make([]string, len(args))
	for i, a := range args {
		shown[i] = strings.ReplaceAll(a, dir, "{dir}")
	}
	o.Sample(map[string]any{"args": shown, "env": c.Env, "exit": r.code, "fault": c.Fault})
	fail := func(f string, a ...any) error {
		return fmt.Errorf("webrpc-gen %s (environment %q), exit code %d: %s\n--- stderr ---\n%s\n--- schema ---\n%s", strings.Join(args, " "), env, r.code, fmt.Sprintf(f, a...), excerpt(r.errout), excerpt(c.Src.text()))
	}
	file := c.outFile(dir)
	rel, _ := filepath.Rel(root, file)
	for name := range after {
		if c.fetches(args) && strings.HasPrefix(name, filepath.Join("w", "tmp", "webrpc-cache")+"/") {
			continue
		}
		if old, ok := before[name]; name != rel && (!ok || old != after[name]) {
			return fail("file %s is written", name)
		}
	}
	for name := range before {
		if _, ok := after[name]; !ok {
			return fail("file %s is removed", name)
		}
	}
	written, there := after[rel]
	o.ClassIf(file != "", "output file")
	o.ClassIf(c.Src.IsJSON, "JSON")

	switch c.Fault {
	case "":
		o.Class("target " + c.Target)
	case "-help", "-version":
		return c.info(o, dir, args, r, there && written != before[rel], fail)
	default:
		o.Class("fault " + c.Fault)
		o.NonTrivial(true)
		if there && (!c.Exists || written != oldContent) {
			return fail("an output file is written: %q", written)
		}
		if r.out != "" {
			return fail("writes to stdout: %q", excerpt(r.out))
		}
		if c.Fault == "exit" {
			if fmt.Sprint(r.code) != c.FaultArg {
				return fail("the template exits with %s", c.FaultArg)
			}
			if !strings.Contains(r.errout, "last words") {
				return fail("messages of the template are missing in stderr")
			}
		} else if r.code == 0 {
			return fail("no error (%s %s)", c.Fault, c.FaultArg)
		} else if strings.TrimSpace(r.errout) == "" {
			return fail("no error message")
		}
		return nil
	}

	// the same with the library
	var code, version string
	var formatErr, refreshErr error
	err = inDir(dir, args, func() error {
		defer surround(filepath.Join(dir, "tmp"), h)()
		s, err := c.library(dir)
		if err != nil {
			return err
		}
		out, err := gen.Generate(s, c.targetPath(), &gen.Config{Format: !c.NoFmt, TemplateOptions: options(args)})
		if err != nil {
			return fail("the library fails: %v", err)
		}
		code, formatErr, version, refreshErr = out.Code, out.FormatErr, out.TmplVersion, out.CacheRefreshErr
		return nil
	})
	if err != nil {
		return err
	}
	if (c.Target == "broken-go" && !c.NoFmt) != (formatErr != nil) {
		return fail("format error of the library: %v", formatErr)
	}
	want := c.expected()
	if c.Target == "tmpl" || c.Target == "cached" {
		view := viewText(want)
		if !strings.HasPrefix(code, view) {
			n := min(len(code), strings.LastIndex(code, "\nhash ")+1)
			return fail("the library and the model, %s", diffLines(view, code[:n]))
		}
		if !strings.HasSuffix(r.errout, "first message1 2 \nmessage of the template, 100%\n") {
			return fail("messages of the template are missing in stderr")
		}
		if w := "\ncommand " + strings.Join(append([]string{"webrpc-gen"}, args...), " ") + "\n"; !strings.Contains(code, w) {
			return fail("no line %q in the code: %s", w, excerpt(code))
		}
	}
	if fetched := c.fetches(args); c.Target == "cached" {
		o.ClassIf(fetched, "templates fetched")
		if (requests > 0) != fetched || strings.Contains(code, "\nnew templates\n") != fetched {
			return fail("%d requests, but expected fetching: %v\n%s", requests, fetched, excerpt(code))
		}
	}
	filtered := len(c.names()) > 0 || len(c.Match)+len(c.Ignore) > 0
	o.NonTrivial(filtered || c.version() != nil || len(c.Opts) > 0 || file != "")
	o.ClassIf(filtered, "services or methods selected")
	o.ClassIf(c.Shake && len(c.names()) > 0, "tree-shaking")
	o.ClassIf(c.Version != nil && c.Env != nil, "version in flag and environment")
	o.ClassIf(c.Version != nil && *c.Version == "", "empty version")
	o.ClassIf(len(c.Opts) > 1, "several options")

	wantCode := 0
	if file == "" {
		if r.out != code+"\n" {
			return fail("output differs from the library, %s", diffLines(code+"\n", r.out))
		}
	} else {
		if !there {
			return fail("no output file %s", c.Out)
		}
		if written != code {
			return fail("output file differs from the library, %s", diffLines(code, written))
		}
		if c.Silent && r.out != "" {
			return fail("-silent, but on stdout: %q", excerpt(r.out))
		}
		if !c.Silent {
			for _, s := range []string{version, c.schemaPath(dir), c.outArg(dir)} {
				if !strings.Contains(r.out, s) {
					return fail("%q is missing in the report: %q", s, excerpt(r.out))
				}
			}
			if c.Target == "cached" {
				failed := c.Remote == "" && (c.Old || refreshes(args))
				o.ClassIf(failed, "old templates, fetching fails")
				if c.Remote == "blocked" {
					if refreshErr == nil || !strings.Contains(r.out, refreshErr.Error()) {
						return fail("the report doesn't say that the cache can't be written (%v):\n%s", refreshErr, r.out)
					}
				} else if !strings.Contains(r.out, filepath.Join(dir, "tmp")) || strings.Contains(r.out, "2h0m") != (c.Old && c.Remote == "") || strings.Contains(r.out, "failed to refresh") != failed {
					return fail("the state of the cache (old: %v) isn't in the report:\n%s", c.Old, r.out)
				}
			}
			if formatErr != nil {
				wantCode = 1
			}
		}
	}
	if formatErr != nil && c.Silent {
		return nil
	}
	if (r.code != 0) != (wantCode != 0) {
		return fail("exit code %d", r.code)
	}
	return nil
}

// info checks -help and -version.
func (c *cliCase) info(o *pbt.Obs, dir string, args []string, r *cliRun, written bool, fail func(string, ...any) error) error {
	o.Class("flag " + c.Fault)
	if r.code != 0 {
		return fail("fails")
	}
	if written {
		return fail("an output file is written")
	}
	if c.Fault == "-version" {
		if r.out != "webrpc-gen "+toolVersion+"\n" {
			return fail("stdout is %q", r.out)
		}
		return nil
	}
	if r.out != "" {
		return fail("stdout is %q", r.out)
	}
	for _, f := range []string{"-schema", "-target", "-out", "-service", "-match"} {
		if !strings.Contains(r.errout, "\n  "+f+" ") {
			return fail("no help for %s", f)
		}
	}
	target, help := -1, -1
	for i, a := range args {
		if strings.HasPrefix(a, "-target=") {
			target = i
		}
		if strings.TrimLeft(a, "-") == "h" || strings.TrimLeft(a, "-") == "help" {
			help = i
		}
	}
	if target < 0 || target > help || c.Target != "tmpl" {
		return nil
	}
	o.NonTrivial(true)
	opts := options(args)
	delete(opts, "h")
	opts["help"] = ""
	want := "Help of " + c.targetPath() + ":"
	for _, k := range m.SortedKeys(opts) {
		want += fmt.Sprintf(" %s=%s", k, opts[k])
	}
	want += " end of help\n"
	if !strings.Contains(r.errout, want) {
		return fail("the help of the target is missing: %q", want)
	}
	return nil
}

var invalidSchemas = map[bool][]string{
	false: {"", "webrpc = v9\n\nname = x\nversion = v1\n", "webrpc = v1\n\nname = x\nversion = v1\n\nstruct A\n  - b: Nope\n", "webrpc = v1\n\nname = x\nversion = v1\n\nstruct A\n  - b: string\n  - b: string\n", "webrpc = v1\n\nname = x\nversion = v1\n\nservice S\n", "webrpc = v1\n\nname = x\nversion = v1\n\nimport\n  - nope.ridl\n", "webrpc = v1\n\nname = x\nversion = v1\nfoo bar\n"},
	true:  {"", "{}", "null", `{"webrpc":"v9","name":"x","version":"v1"}`, `{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"b","type":"Nope"}]}]}`, `{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"enum","name":"A","type":"string","fields":[{"name":"B","type":"int32"}]}]}`},
}

func genCli(t *rapid.T) any {
	c := &cliCase{}
	cfg := m.Default()
	cfg.Depth = 2
	cfg.MaxAlias, cfg.MaxEnum, cfg.MaxStruct, cfg.MaxSvc, cfg.MaxMethod = 2, 2, 4, 4, 3
	cfg.RefBias = true
	cfg.Annots = true
	c.Src = genSource(t, cfg)
	c.Path = m.Num(t, "path", 0, 4)
	c.Target = m.Pick(t, "target", []string{"tmpl", "tmpl", "tmpl", "json", "debug", "local-go", "broken-go", "cached"})
	if c.Target == "cached" {
		c.Remote = m.Pick(t, "remote", []string{"", "works", "works", "none", "blocked"})
		c.Old = (c.Remote == "" || c.Remote == "works") && rapid.Bool().Draw(t, "old")
	}
	if len(c.Src.Schema.Services) > 0 && rapid.Bool().Draw(t, "service") {
		l := m.GenServices(t, c.Src.Schema)
		c.Service = &l
	}
	c.Shake = rapid.Bool().Draw(t, "shake")
	var have []m.Annot
	for _, sv := range c.Src.Schema.Services {
		for _, mt := range sv.Methods {
			have = append(have, mt.Annots...)
		}
	}
	reqs := func() (out []annReq) {
		for k := m.Num(t, "requests", 1, 3); k > 0; k-- {
			a := annReq{Name: m.Pick(t, "name", []string{"auth", "nope", "internal"})}
			if len(have) > 0 && !m.OneIn(t, "any", 4) {
				h := m.Pick(t, "of", have)
				a = annReq{Name: h.Name, Val: h.Val, HasVal: h.HasVal && !strings.Contains(h.Val, ",") && !strings.Contains(h.Val, "\x00")}
				if !a.HasVal || m.OneIn(t, "by-name", 3) {
					a.HasVal, a.Val = false, ""
				}
			}
			if m.OneIn(t, "other-value", 5) {
				a.HasVal = true
				a.Val = m.Pick(t, "value", []string{"", " ", "admin", "x:y", "@", "a=b"})
			}
			out = append(out, a)
		}
		return
	}
	switch m.Num(t, "filter", 0, 3) {
	case 1:
		c.Match = reqs()
	case 2:
		c.Ignore = reqs()
	}
	versions := []string{"v2", "v1.2.3", "", "$WEBRPC_SCHEMA_VERSION", "a b", "v0.0.0-x", "ü=1"}
	if m.OneIn(t, "flag-version", 3) {
		v := m.Pick(t, "version", versions)
		c.Version = &v
	}
	if m.OneIn(t, "env-version", 3) {
		v := m.Pick(t, "env-value", versions)
		c.Env = &v
	}
	for k := m.Num(t, "opts", 0, 4); k > 0; k-- {
		o := m.Pick(t, "dashes", []string{"-", "-", "--", "---"}) + m.Pick(t, "opt", append([]string{"Schema", "targets", "fmt2", "ou", "a:b", "ä"}, optNames[:3]...))
		if m.Num(t, "optval?", 0, 2) > 0 {
			o += "=" + m.Pick(t, "optval", []string{"", "true", "x", "a=b", "-y", "--", "with blank", "\"q\"", "ü", "a,b", "@a:b", "line\nbreak"})
		}
		c.Opts = append(c.Opts, o)
	}
	c.NoFmt = m.OneIn(t, "nofmt", 3)
	c.Silent = m.OneIn(t, "silent", 3)
	if rapid.Bool().Draw(t, "out?") {
		c.Out = m.Pick(t, "out", []string{"out.txt", "./out.txt", "sub/out.txt", "new/dir/out.txt", "{dir}/out.txt", "{dir}/new/out.txt", "../out.txt", "stdout", "out", "sub/stdout", "a b/ü.go"})
		c.Exists = rapid.Bool().Draw(t, "exists")
	}
	if m.OneIn(t, "refresh", 6) {
		c.Flags = append(c.Flags, "-refreshCache")
	}
	if m.OneIn(t, "bool-value", 6) {
		c.Flags = append(c.Flags, m.Pick(t, "bool", []string{"-refreshCache=false", "--refreshCache=0", "-version=false"}))
	}
	if m.OneIn(t, "fault?", 3) {
		faults := []string{"no-schema", "no-target", "missing-file", "extension", "invalid", "both", "plain-arg", "dash", "bad-bool", "bad-annot", "no-dir", "remote", "out-under-file", "out-is-dir", "-help", "-version"}
		faults = append(faults, m.SortedKeys(faultTemplates)...)
		c.Fault = m.Pick(t, "fault", faults)
	}
	switch c.Fault {
	case "invalid":
		c.FaultArg = m.Pick(t, "invalid", invalidSchemas[c.Src.IsJSON])
	case "both":
		c.Match, c.Ignore = reqs(), reqs()
	case "plain-arg":
		c.FaultArg = m.Pick(t, "arg", []string{"foo", "foo=-bar", "api.ridl", "=x", " -client", ""})
	case "dash":
		c.FaultArg = m.Pick(t, "arg", []string{"-", "--", "-=x", "--=", "---"})
	case "bad-bool":
		c.FaultArg = m.Pick(t, "arg", []string{"-fmt=maybe", "-silent=", "-methodTreeShake=2", "-refreshCache=yes"})
	case "bad-annot":
		c.Match, c.Ignore = nil, nil
		c.FaultArg = "-" + m.Pick(t, "which", []string{"match", "ignore"}) + "=" + m.Pick(t, "arg", []string{"auth", "@auth,internal", "auth:admin", ",@a", "@a,"})
	case "no-dir":
		c.Target = m.Pick(t, "target", []string{"./nope", "../nope", "./sub", "/nonexistent/templates"})
	case "remote":
		c.Target = m.Pick(t, "target", []string{"nope", "Golang", "golang@v0.0.1", "github.com/x/gen-y", "github.com/webrpc/gen-golang@v0.0.1", "jsonx", "go", "ts", "js", "templates", "gen-golang"})
	case "out-under-file":
		c.Out, c.Exists = m.Pick(t, "out", []string{"file/out.txt", "./file/x/out.txt"}), false
	case "out-is-dir":
		c.Out, c.Exists = m.Pick(t, "out", []string{"sub", "./sub/", "."}), false
	case "exit":
		c.FaultArg = fmt.Sprint(m.Pick(t, "code", []int{0, 1, 2, 3, 42, 125}))
		c.Target = "tmpl"
	case "-help":
		c.Flags = append(c.Flags, m.Pick(t, "flag", []string{"-help", "--help", "-h"}))
	case "-version":
		c.Flags = append(c.Flags, m.Pick(t, "flag", []string{"-version", "--version", "-version=true"}))
	default:
		if faultTemplates[c.Fault] != "" {
			c.Target = "tmpl"
		}
	}
	if c.Fault == "-version" {
		c.Flags = slices.DeleteFunc(c.Flags, func(s string) bool { return s == "-version=false" })
	}
	c.Perm = rapid.Permutation(seq(len(c.args("")))).Draw(t, "perm")
	return c
}

func seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C29",
		Rule: "a schema file (RIDL or JSON, path spelled in several ways) and a random command line: flags in any order and combination, options of the template, version in flag or environment, output to stdout or to a new or existing file; the command's output has to be what the library gives for the same steps and, for a template that prints everything, what the model says; one in three cases has one of 23 faults (missing or bad arguments, invalid schemas and templates, targets that don't exist, exit in a template...), which have to end with an error, without output and without touching the output file; non-trivial if something is selected, overridden, passed as option, written to a file or wrong",
		New:  func() any { return &cliCase{} },
		Gen:  genCli,
		Check: func(v any, o *pbt.Obs) error {
			return v.(*cliCase).check(o)
		},
		Quick: 500, Deep: 40000,
	})
}

package genp

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"sync"

	"github.com/webrpc/webrpc/gen"
	"pgregory.net/rapid"

	m "verif/harness/model"
	"verif/harness/pbt"
)

// C32: the cache of remote templates.

// remoteTarget is a target as given and where its templates are.
type remoteTarget struct {
	spelled, target        string // target is the full name
	owner, repo, path, ref string
	bad                    bool // can't be fetched at all
}

func (r *remoteTarget) key() string { return r.owner + "/" + r.repo + "/" + r.path + "@" + r.ref }

var remoteTargets = func() []remoteTarget {
	out := []remoteTarget{
		{spelled: "github.com/o/gen-a", target: "github.com/o/gen-a", owner: "o", repo: "gen-a", ref: "main"},
		{spelled: "github.com/o/gen-a@v1.2.3", target: "github.com/o/gen-a@v1.2.3", owner: "o", repo: "gen-a", ref: "v1.2.3"},
		{spelled: "github.com/o/gen-a@v1.2.4", target: "github.com/o/gen-a@v1.2.4", owner: "o", repo: "gen-a", ref: "v1.2.4"},
		{spelled: "github.com/o/gen-a@heads/Main", target: "github.com/o/gen-a@heads/Main", owner: "o", repo: "gen-a", ref: "Main"},
		{spelled: "github.com/o/gen-a@v1.2.30", target: "github.com/o/gen-a@v1.2.30", owner: "o", repo: "gen-a", ref: "v1.2.30"},
		{spelled: "github.com/o/mono/tmpl/TS@v2", target: "github.com/o/mono/tmpl/TS@v2", owner: "o", repo: "mono", path: "tmpl/TS", ref: "v2"},
		{spelled: "github.com/p/gen-a@v1.2.3", target: "github.com/p/gen-a@v1.2.3", owner: "p", repo: "gen-a", ref: "v1.2.3"},
		{spelled: "github.com/o/gen-a@heads/main", target: "github.com/o/gen-a@heads/main", owner: "o", repo: "gen-a", ref: "main"},
		{spelled: "github.com/o/mono/tmpl/ts@v2", target: "github.com/o/mono/tmpl/ts@v2", owner: "o", repo: "mono", path: "tmpl/ts", ref: "v2"},
		{spelled: "github.com/o/mono/other/ts@v2", target: "github.com/o/mono/other/ts@v2", owner: "o", repo: "mono", path: "other/ts", ref: "v2"},
		{spelled: "go", target: "github.com/webrpc/gen-golang@v0.6.0", owner: "webrpc", repo: "gen-golang", ref: "v0.6.0"},
		{spelled: "js", target: "github.com/webrpc/gen-javascript@v0.6.0", owner: "webrpc", repo: "gen-javascript", ref: "v0.6.0"},
		{spelled: "rust", target: "github.com/webrpc/gen-rust", owner: "webrpc", repo: "gen-rust", ref: "main"},
		{spelled: "Rust", target: "github.com/webrpc/gen-rust", owner: "webrpc", repo: "gen-rust", ref: "main"},
		{spelled: "rust@v1.0.0", target: "github.com/webrpc/gen-rust@v1.0.0", owner: "webrpc", repo: "gen-rust", ref: "v1.0.0"},
		{spelled: "golang@v0.1.0", target: "github.com/webrpc/gen-golang@v0.1.0", owner: "webrpc", repo: "gen-golang", ref: "v0.1.0"},
		{spelled: "example.org/gen-a", target: "example.org/gen-a", bad: true},
		{spelled: "github.com/o/gen-a@branch", target: "github.com/o/gen-a@branch", bad: true},
	}
	// two targets with the same directory in the cache
	seen := map[string]string{}
	for i := 0; ; i++ {
		t := fmt.Sprintf("github.com/o%d/gen-x@v1.0.0", i)
		n := cacheName(t)
		if o := seen[n]; o != "" {
			for _, x := range []string{o, t} {
				owner := strings.Split(x, "/")[1]
				out = append(out, remoteTarget{spelled: x, target: x, owner: owner, repo: "gen-x", ref: "v1.0.0"})
			}
			return out
		}
		seen[n] = t
	}
}()

// cacheStep is a generation or a change of the surroundings.
type cacheStep struct {
	Op      string `json:"op"` // gen, publish, age, drop
	Target  int    `json:"target"`
	Refresh bool   `json:"refresh,omitempty"`
	Remote  string `json:"remote,omitempty"` // how the remote fails
	Nth     int    `json:"nth,omitempty"`    // the download that fails
	Files   []int  `json:"files,omitempty"`  // templates to publish
	Seconds int    `json:"seconds,omitempty"`
	Block   string `json:"block,omitempty"` // what can't be written to the cache
	Which   int    `json:"which,omitempty"` // the template that can't be
}

type cacheCase struct {
	Targets []int       `json:"targets"` // those in use
	Steps   []cacheStep `json:"steps"`
}

var tmplNames = []string{"a.go.tmpl", "help.go.tmpl", "n.go.tmpl", "z.go.tmpl", "Types.go.tmpl"}

// remoteFiles are the templates of a published version: main prints the
// name of every file, and which of them was read last.
func remoteFiles(id string, files []int) map[string]string {
	out := map[string]string{}
	main := `{{define "main"}}` + id
	for _, f := range files {
		n := tmplNames[f]
		main += fmt.Sprintf(` {{template "own %d"}}`, f)
		out[n] = filler(id, f) + fmt.Sprintf(`{{define "own %d"}}%s of %s{{end}}{{define "last"}}%s of %s{{end}}`, f, n, id, n, id)
	}
	out["main.go.tmpl"] = main + ` last {{template "last"}}{{end}}{{define "last"}}main of ` + id + `{{end}}`
	return out
}

// filler is a comment of up to a few hundred kilobytes in front of some templates.
func filler(id string, f int) string {
	h := fnv.New32a()
	fmt.Fprintf(h, "%s/%d", id, f)
	k := h.Sum32() % 12
	if k > 2 {
		return ""
	}
	return "{{/* " + strings.Repeat("some words ", []int{400, 7000, 30000}[k]) + "*/}}"
}

func wantCode(id string, files []int) string {
	out := id
	names := []string{"main.go.tmpl"}
	for _, f := range files {
		n := tmplNames[f]
		out += fmt.Sprintf(" %s of %s", n, id)
		names = append(names, n)
	}
	slices.Sort(names)
	last := names[len(names)-1]
	if last == "main.go.tmpl" {
		last = "main"
	}
	return out + " last " + last + " of " + id
}

type version struct {
	id    string
	files []int
}

// hub answers requests as the code host.
type hub struct {
	mu        sync.Mutex
	published map[string]version
	fault     string
	nth       int
	requests  int
	downloads int
	odd       []string
	listed    bool
	texts     map[string]string // templates of all versions, instead of their own
}

func (h *hub) files(v version) map[string]string {
	if h.texts != nil {
		return h.texts
	}
	return remoteFiles(v.id, v.files)
}

type cutBody struct{ io.Reader }

func (c cutBody) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	if err == io.EOF {
		err = io.ErrUnexpectedEOF
	}
	return n, err
}
func (cutBody) Close() error { return nil }

func (h *hub) RoundTrip(req *http.Request) (*http.Response, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.requests++
	if req.Body != nil {
		req.Body.Close()
	}
	answer := func(code int, body string) (*http.Response, error) {
		return &http.Response{StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(bytes.NewReader([]byte(body))), ContentLength: int64(len(body)), Request: req}, nil
	}
	switch h.fault {
	case "down":
		return nil, errors.New("dial tcp: network is unreachable")
	case "500":
		return answer(500, "oops")
	case "403":
		return answer(403, `{"message":"API rate limit exceeded"}`)
	}
	parts := strings.Split(strings.Trim(req.URL.Path, "/"), "/")
	switch {
	case req.URL.Host == "api.github.com" && len(parts) == 3 && parts[0] == "repos":
		if h.fault == "repo 404" {
			return answer(404, `{"message":"Not Found"}`)
		}
		return answer(200, `{"default_branch":"main"}`)
	case req.URL.Host == "api.github.com" && len(parts) >= 4 && parts[3] == "contents":
		dir := strings.Join(parts[4:], "/")
		v, ok := h.published[parts[1]+"/"+parts[2]+"/"+dir+"@"+req.URL.Query().Get("ref")]
		if !ok || h.fault == "404" {
			return answer(404, `{"message":"Not Found"}`)
		}
		h.listed = true
		type entry struct {
			Type, Path, Name string
			Size             int
			DownloadURL      string `json:"download_url,omitempty"`
		}
		join := func(n string) string { return strings.TrimPrefix(dir+"/"+n, "/") }
		list := []entry{}
		if h.fault != "no templates" {
			files := h.files(v)
			for _, n := range m.SortedKeys(files) {
				list = append(list, entry{"file", join(n), n, len(files[n]), "https://raw.example/" + v.id + "/" + n})
			}
		}
		list = append(list, entry{"file", join("README.md"), "README.md", 3, "https://raw.example/README.md"}, entry{"dir", join("tests"), "tests", 0, ""})
		b, _ := json.Marshal(list)
		body := strings.NewReplacer(`"Type"`, `"type"`, `"Path"`, `"path"`, `"Name"`, `"name"`, `"Size"`, `"size"`).Replace(string(b))
		switch h.fault {
		case "garbage":
			body = body[:len(body)/2]
		case "html":
			body = "<html>sign in to the hotel's network</html>"
		}
		return answer(200, body)
	case req.URL.Host == "raw.example" && len(parts) == 2:
		n := h.downloads
		h.downloads++
		for _, v := range h.published {
			if v.id != parts[0] {
				continue
			}
			text, ok := h.files(v)[parts[1]]
			if !ok {
				break
			}
			if n == h.nth {
				switch h.fault {
				case "download 500":
					return answer(500, "oops")
				case "download 404":
					return answer(404, "")
				case "download breaks":
					return nil, errors.New("connection reset by peer")
				case "download cut":
					r, _ := answer(200, text)
					r.Body = cutBody{strings.NewReader(text[:len(text)/2])}
					return r, nil
				}
			}
			return answer(200, text)
		}
	}
	h.odd = append(h.odd, req.URL.String())
	return answer(404, "")
}

// slot is a directory in the cache, according to the model.
type slot struct {
	target string
	v      version
	age    int
	// what may be in it after it couldn't be written, by target
	torn map[string][]version
}

// block puts something into the way of a file of the cache, and returns how
// to clear it away, or nil if that isn't possible here.
func block(dir, what, name string) (func(), error) {
	at := dir
	switch what {
	case "file":
		at = filepath.Join(dir, name)
	case "info":
		at = filepath.Join(dir, ".webrpc-gen-info")
	case "stamp":
		at = filepath.Join(dir, ".webrpc-gen-timestamp")
	case "dir":
		if _, err := os.Lstat(dir); err == nil {
			return nil, nil
		}
		if err := os.MkdirAll(filepath.Dir(dir), 0o755); err != nil {
			return nil, err
		}
		return func() { os.Remove(dir) }, os.WriteFile(dir, nil, 0o644)
	}
	if fi, err := os.Lstat(at); err == nil {
		if what == "file" || fi.IsDir() {
			return nil, nil
		}
		if err := os.Remove(at); err != nil {
			return nil, err
		}
	}
	if err := os.MkdirAll(at, 0o755); err != nil {
		return nil, err
	}
	in := filepath.Join(at, "in the way")
	return func() { os.Remove(in); os.Remove(at) }, os.WriteFile(in, nil, 0o644)
}

const ttl = 3600

// surround makes a directory the temporary one, and sends requests to a
// transport.
func surround(tmp string, tr http.RoundTripper) func() {
	oldTmp, hadTmp := os.LookupEnv("TMPDIR")
	os.Setenv("TMPDIR", tmp)
	oldTransport := http.DefaultTransport
	http.DefaultTransport = tr
	return func() {
		http.DefaultTransport = oldTransport
		if hadTmp {
			os.Setenv("TMPDIR", oldTmp)
		} else {
			os.Unsetenv("TMPDIR")
		}
	}
}

func (c *cacheCase) check(o *pbt.Obs) error {
	root, err := os.MkdirTemp(pbt.Scratch, "cache-")
	if err != nil {
		return pbt.Harness(err)
	}
	defer os.RemoveAll(root)
	h := &hub{published: map[string]version{}}
	defer surround(root, h)()
	for i, t := range c.Targets {
		r := remoteTargets[t]
		if _, ok := h.published[r.key()]; !ok && !r.bad {
			h.published[r.key()] = version{id: fmt.Sprintf("first%d", i), files: []int{i % len(tmplNames)}}
		}
	}
	slots := map[string]*slot{}
	fetched, cached, survived := 0, 0, 0
	history := ""
	for i, st := range c.Steps {
		r := remoteTargets[c.Targets[st.Target%len(c.Targets)]]
		dir := filepath.Join(root, "webrpc-cache", cacheName(r.target))
		stamp := filepath.Join(dir, ".webrpc-gen-timestamp")
		history += fmt.Sprintf("%d. %s %s", i+1, st.Op, r.spelled)
		switch st.Op {
		case "publish":
			if !r.bad {
				h.published[r.key()] = version{id: fmt.Sprintf("step%d", i), files: st.Files}
			}
			history += fmt.Sprintf(" %v\n", st.Files)
			continue
		case "drop": // the cache was never completed
			os.Remove(stamp)
			delete(slots, dir)
			history += "\n"
			continue
		case "age":
			history += fmt.Sprintf(" %d s\n", st.Seconds)
			s := slots[dir]
			if s == nil || s.torn != nil {
				continue
			}
			b, err := os.ReadFile(stamp)
			ts, err2 := strconv.ParseInt(strings.TrimSpace(string(b)), 10, 64)
			if err != nil || err2 != nil {
				return fmt.Errorf("%sno time in the cache: %v %v", history, err, err2)
			}
			secs := st.Seconds
			if a := s.age + secs; a > ttl-150 && a < ttl+5 {
				secs += 300 // not too close to the limit
			}
			if err := os.WriteFile(stamp, []byte(fmt.Sprint(ts-int64(secs))), 0o644); err != nil {
				return pbt.Harness(err)
			}
			s.age += secs
			continue
		}
		history += fmt.Sprintf(", refresh: %v, remote: %q %d\n", st.Refresh, st.Remote, st.Nth)
		h.fault, h.nth, h.requests, h.downloads, h.listed = st.Remote, st.Nth, 0, 0, false
		s := slots[dir]
		var torn []version
		if s != nil && s.torn != nil {
			torn = s.torn[r.target]
		}
		isTorn := s != nil && s.torn != nil
		if s != nil && s.target != r.target {
			s = nil // same directory, another target
			o.Class("directory of another target")
		}
		fresh := !isTorn && s != nil && s.age <= ttl && !st.Refresh
		works := st.Remote == "" && !r.bad
		if strings.HasPrefix(st.Remote, "download") && !r.bad && st.Nth > len(h.published[r.key()].files) {
			works = true // there is no such download
		}
		if st.Remote == "repo 404" && !r.bad && strings.Contains(r.target, "@") {
			works = true // the branch isn't asked for
		}
		var unblock func()
		if st.Block != "" && works && !fresh {
			unblock, err = block(dir, st.Block, tmplNames[st.Which])
			if err != nil {
				return pbt.Harness(err)
			}
			if unblock != nil {
				history += fmt.Sprintf("   in the way of the cache: %s %d\n", st.Block, st.Which)
			}
		}
		before, err := tree(root)
		if err != nil {
			return err
		}
		out, gerr := gen.Generate(empty(), r.spelled, &gen.Config{RefreshCache: st.Refresh})
		after, err := tree(root)
		if err != nil {
			return err
		}
		if len(h.odd) > 0 {
			return pbt.Harness(fmt.Errorf("unknown requests %q", h.odd))
		}
		fail := func(f string, a ...any) error {
			return fmt.Errorf("%s%s\n(error %v, %d requests)", history, fmt.Sprintf(f, a...), gerr, h.requests)
		}
		if unblock != nil {
			o.Class("cache can't be written: " + st.Block)
			unblock()
			v := h.published[r.key()]
			if gerr != nil || out.CacheRefreshErr == nil {
				return fail("cache can't be written: expected code, and that this is reported")
			}
			if want := wantCode(v.id, v.files); out.Code != want || out.TmplVersion != r.target || out.CacheAge != 0 {
				return fail("code is %q of %q, age %v, expected %q", out.Code, out.TmplVersion, out.CacheAge, want)
			}
			next := &slot{torn: map[string][]version{}}
			if old := slots[dir]; old != nil {
				if old.torn != nil {
					next.torn = old.torn
				} else {
					next.torn[old.target] = []version{old.v}
				}
			}
			next.torn[r.target] = append(next.torn[r.target], v)
			slots[dir] = next
			continue
		}
		if isTorn {
			// anything but a mixture
			o.Class("after the cache couldn't be written")
			if gerr != nil {
				if works {
					return fail("fails")
				}
				continue
			}
			v := h.published[r.key()]
			ok := works && h.requests > 0 && out.Code == wantCode(v.id, v.files)
			if ok {
				slots[dir] = &slot{target: r.target, v: v}
			}
			for _, v := range torn {
				ok = ok || (h.requests == 0 || !works) && out.Code == wantCode(v.id, v.files)
			}
			if !ok {
				return fail("after the cache couldn't be written, code is %q", out.Code)
			}
			continue
		}
		same := func() error {
			for n := range after {
				if old, ok := before[n]; !ok || old != after[n] {
					return fail("file %s of the cache is changed", n)
				}
			}
			for n := range before {
				if _, ok := after[n]; !ok {
					return fail("file %s of the cache is removed", n)
				}
			}
			return nil
		}
		var v version
		switch {
		case fresh:
			cached++
			o.Class("fresh copy in use")
			v = s.v
			if h.requests > 0 {
				return fail("fetched although there is a fresh copy")
			}
			if gerr == nil && out.CacheRefreshErr != nil {
				return fail("reports %v", out.CacheRefreshErr)
			}
			if err := same(); err != nil {
				return err
			}
		case works:
			fetched++
			o.Class("fetched")
			v = h.published[r.key()]
			slots[dir] = &slot{target: r.target, v: v}
			if gerr == nil && out.CacheRefreshErr != nil {
				return fail("reports %v", out.CacheRefreshErr)
			}
			if gerr == nil && out.CacheAge != 0 {
				return fail("age of the templates is %v", out.CacheAge)
			}
		case s != nil:
			survived++
			o.Class("failure, cached copy in use")
			o.ClassIf(s.age > ttl, "failure, old copy in use")
			v = s.v
			if gerr == nil && out.CacheRefreshErr == nil {
				return fail("the failure isn't reported")
			}
			if err := same(); err != nil {
				return err
			}
		default:
			o.Class("failure, no copy")
			if gerr == nil {
				return fail("no error, code is %q", out.Code)
			}
			for n := range before {
				if before[n] != after[n] {
					return fail("file %s of the cache is changed", n)
				}
			}
			continue
		}
		if gerr != nil {
			return fail("fails")
		}
		if want := wantCode(v.id, v.files); out.Code != want {
			return fail("code is %q, expected %q", out.Code, want)
		}
		if out.IsLocal || out.TmplVersion != r.target {
			return fail("version of the templates is %q, local: %v", out.TmplVersion, out.IsLocal)
		}
		if fresh || !works {
			if secs := int(out.CacheAge.Seconds()); secs < s.age || secs > s.age+600 {
				return fail("age of the templates is %v, expected %d s", out.CacheAge, s.age)
			}
		}
	}
	o.Sample(strings.Split(history, "\n"))
	o.Evals(len(c.Steps))
	o.NonTrivial(survived > 0 && fetched > 0)
	return nil
}

var remoteFaults = []string{"down", "500", "403", "repo 404", "404", "no templates", "garbage", "html", "download 500", "download 404", "download breaks", "download cut"}

func init() {
	pbt.Register(&pbt.Prop{
		ID:   "C32",
		Rule: "a random history of up to 20 steps with 1-4 remote targets (two of which have the same directory in the cache): generations with and without refresh while the remote works or fails in one of 12 ways (at any request or download), new versions with other template files, time passing, caches left incomplete; code, report, requests and files in the cache are compared with a model; non-trivial: something was fetched and a cached copy survived a failure",
		New:  func() any { return &cacheCase{} },
		Gen: func(t *rapid.T) any {
			c := &cacheCase{}
			n := len(remoteTargets)
			if m.OneIn(t, "same-directory", 4) {
				c.Targets = []int{n - 2, n - 1}
			}
			for k := m.Num(t, "targets", 1, 3); k > 0; k-- {
				x := m.Num(t, "target", 0, n-1)
				if len(c.Targets) > 0 && m.OneIn(t, "similar", 4) {
					// one that is named alike
					for i, r := range remoteTargets {
						if l := remoteTargets[c.Targets[0]]; r.target != l.target && strings.EqualFold(r.target, l.target) {
							x = i
						}
					}
				}
				if !slices.Contains(c.Targets, x) {
					c.Targets = append(c.Targets, x)
				}
			}
			for k := m.Num(t, "steps", 1, 20); k > 0; k-- {
				st := cacheStep{Op: m.Pick(t, "op", []string{"gen", "gen", "gen", "gen", "publish", "age", "drop"}), Target: m.Num(t, "of", 0, len(c.Targets)-1)}
				if st.Op == "drop" && m.Num(t, "really", 0, 3) > 0 {
					st.Op = "gen"
				}
				switch st.Op {
				case "gen":
					st.Refresh = m.OneIn(t, "refresh", 3)
					if m.OneIn(t, "fault?", 2) {
						st.Remote = m.Pick(t, "fault", remoteFaults)
						st.Nth = m.Num(t, "nth", 0, 4)
					} else if m.OneIn(t, "block?", 4) {
						st.Block = m.Pick(t, "block", []string{"file", "file", "file", "dir", "info", "stamp"})
						st.Which = m.Num(t, "which", 0, len(tmplNames)-1)
					}
				case "publish":
					for i := range tmplNames {
						if rapid.Bool().Draw(t, "file") {
							st.Files = append(st.Files, i)
						}
					}
				case "age":
					st.Seconds = m.Pick(t, "seconds", []int{5, 600, 1700, 3400, 3900, 86400, 31536000})
				}
				c.Steps = append(c.Steps, st)
			}
			return c
		},
		Check: func(v any, o *pbt.Obs) error { return v.(*cacheCase).check(o) },
		Quick: 2500, Deep: 60000,
	})
}

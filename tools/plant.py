#!/usr/bin/env python3
"""Makes and confirms planted bugs: plant.py SPECS.py [id ...]

SPECS.py defines PLANTS, a list of dicts: id, property, needs, breaks,
edits = [(file, old, new)], pkg (package directory of the demonstration) and
demo (Go test file with TestDemo), or files {name: text} with a demo.sh.
Works on clones of the repository below /tmp/plants.
"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off",
           PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"], HOME="/root",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = '''#!/bin/bash
# Fails if the change is applied. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off HOME=/root
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" @FLAGS@ -run '^TestDemo$' ./PKG
'''

GENDEMO = '''#!/bin/bash
# Fails if the change is applied. Run in the repository. The package gen needs
# two template modules that aren't available here; stand-ins take their place.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/veriftools/go1.25.14/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off HOME=/root
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
for g in golang typescript; do
  mkdir -p "$tmp/gen-$g"
  printf 'module github.com/webrpc/gen-%s\\n\\ngo 1.24\\n' $g > "$tmp/gen-$g/go.mod"
  printf 'package %s\\n\\nimport "embed"\\n\\n//go:embed *.go.tmpl\\nvar FS embed.FS\\n' $g > "$tmp/gen-$g/embed.go"
  printf '{{- define "main" -}}\\n{{ .SchemaHash }}\\n{{- end -}}\\n' > "$tmp/gen-$g/main.go.tmpl"
done
mkdir "$tmp/demo"
cp "$repo/go.sum" "$tmp/demo/go.sum"
grep -v '^module\\|^tool\\|^//' "$repo/go.mod" > "$tmp/rest"
{ echo 'module demo'; cat "$tmp/rest"; echo 'require github.com/webrpc/webrpc v0.0.0'
  echo "replace github.com/webrpc/webrpc => $repo"
  echo "replace github.com/webrpc/gen-golang => $tmp/gen-golang"
  echo "replace github.com/webrpc/gen-typescript => $tmp/gen-typescript"; } > "$tmp/demo/go.mod"
cp "$here/demo_test.go.txt" "$tmp/demo/demo_test.go"
cd "$tmp/demo" && DEMO_CLI="$tmp/webrpc-gen"
export DEMO_CLI
if grep -q DEMO_CLI demo_test.go; then go build -buildvcs=false -o "$DEMO_CLI" github.com/webrpc/webrpc/cmd/webrpc-gen || exit 1; fi
go test -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
'''


def sh(cmd, cwd, timeout=600, env=ENV):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def clone(path):
    shutil.rmtree(path, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", path], check=True)


def one(p):
    base = "/tmp/plants/" + p["id"]
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    dest = os.path.join(VERIF, "seeded", p["id"])
    try:
        repo = base + "/repo"
        clone(repo)
        for f, old, new in p["edits"]:
            path = os.path.join(repo, f)
            s = open(path).read()
            if s.count(old) != 1:
                return p, "BAD EDIT %s: %d matches of %r" % (f, s.count(old), old[:60])
            open(path, "w").write(s.replace(old, new))
        rc, out = sh(["gofmt", "-l"] + [e[0] for e in p["edits"]], repo)
        if rc or out.strip():
            return p, "GOFMT " + out
        rc, diff = sh(["git", "diff"], repo)
        d = base + "/demo"
        os.makedirs(d)
        if "files" in p:
            for n, t in p["files"].items():
                open(os.path.join(d, n), "w").write(t)
        else:
            open(d + "/demo_test.go.txt", "w").write(p["demo"])
            if p["pkg"] == "gen":
                open(d + "/demo.sh", "w").write(GENDEMO)
            else:
                open(d + "/demo.sh", "w").write(DEMO.replace("PKG", p["pkg"]).replace("@FLAGS@", p.get("flags", "")))
        os.chmod(d + "/demo.sh", 0o755)
        rc, out = sh(["go", "test", "./schema/...", "./tests/...", "."], repo)
        if rc:
            return p, "TESTS FAIL\n" + out[-2000:]
        rc, out = sh(["bash", d + "/demo.sh"], repo)
        if rc == 0:
            return p, "DEMO PASSES WITH PATCH\n" + out[-800:]
        bad = out
        sh(["git", "stash", "-q"], repo)
        rc, out = sh(["bash", d + "/demo.sh"], repo)
        if rc != 0:
            return p, "DEMO FAILS WITHOUT PATCH\n" + out[-2000:]
        sh(["git", "stash", "pop", "-q"], repo)
        if "[build failed]" in bad or "setup failed" in bad:
            return p, "DEMO DOESN'T BUILD WITH PATCH\n" + bad[-1500:]
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        open(dest + "/patch.diff", "w").write(diff)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(dest + "/meta.json", "w"), indent=1)
        open(dest + "/meta.json", "a").write("\n")
        res = []
        for prop in [p["property"]] + p.get("also", []):
            env = dict(os.environ, VERIF_REPO=repo)
            rc, out = sh(["python3", os.path.join(VERIF, "check.py"), prop], VERIF, 1500, env)
            res.append("%s rc=%d %s" % (prop, rc, "caught" if rc == 1 and "VIOLATION property=%s " % prop in out else "MISSED\n" + out[-1500:]))
        return p, "\n    ".join(res)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    todo = [p for p in ns["PLANTS"] if len(sys.argv) < 3 or p["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for p, r in ex.map(one, todo):
            print("%-28s %s" % (p["id"], r), flush=True)


main()

#!/usr/bin/env python3
"""Runs the workers against small changes of /repo and lists those that no
property notices.  Not part of any check.

  run.py MUTANTS.jsonl RESULTS.jsonl SLOTS CASES [file-substring|@ids-file]
"""
import json, os, shutil, subprocess, sys, threading, queue, random
sys.path.insert(0, "/verif")
sys.argv, argv = sys.argv[:1], sys.argv
import check
muts = [json.loads(l) for l in open(argv[1])]
res_path, slots, cases = argv[2], int(argv[3]), argv[4]
if len(argv) > 5:
    if argv[5].startswith("@"):
        ids = {json.loads(l)["id"] for l in open(argv[5][1:])}
        muts = [m for m in muts if m["id"] in ids]
    else:
        muts = [m for m in muts if any(s in m["file"] for s in argv[5].split(","))]
done = set()
if os.path.exists(res_path):
    done = {json.loads(l)["id"] for l in open(res_path)}
muts = [m for m in muts if m["id"] not in done]
random.Random(5).shuffle(muts)
q = queue.Queue()
for m in muts:
    q.put(m)
lock = threading.Lock()
out = open(res_path, "a")
ROOT = os.environ.get("MUTDIR", "/tmp/mutw")
CORE = "C11 C01 C02 C03 C04 C05 C08 C09 C10 C12 C13 C18 C19 C20 C21 C22 C34 C24 C06 C07 C16 C17 C23 C14 C15 C33 C25".split()
GENP = "C26 C27 C31 C30 C28 C29 C32".split()
os.makedirs(ROOT, exist_ok=True)

# earlier kills of the same file come first
hits = {}

def slot(i):
    d = os.path.join(ROOT, "s%d" % i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = dict(check.ENV, GOCACHE=os.path.join(d, "cache"), GOMAXPROCS="2", VERIF_CLI=os.path.join(d, "webrpc-gen"), VERIF_TEST=os.path.join(d, "webrpc-test"))
    base = os.path.join(ROOT, "basecache")
    n = 0
    while True:
        try:
            m = q.get_nowait()
        except queue.Empty:
            break
        if n % 60 == 0:
            shutil.rmtree(d + "/cache", ignore_errors=True)
            subprocess.run(["cp", "-a", base, d + "/cache"])
        n += 1
        src = open(os.path.join("/repo", m["file"]), "rb").read()
        new = src[:m["start"]] + m["text"].encode() + src[m["end"]:]
        mf = os.path.join(d, "m.go")
        open(mf, "wb").write(new)
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": {os.path.join("/repo", m["file"]): mf}}, open(ov, "w"))
        isgen = m["file"].startswith(("gen/", "cmd/webrpc-gen"))
        iswire = m["file"].startswith(("tests/", "cmd/webrpc-test"))
        verdict, by, info = "survived", "", ""
        builds = [("gen", "./cmd/gen", []), ("webrpc-gen", "github.com/webrpc/webrpc/cmd/webrpc-gen", ["-ldflags", "-X github.com/webrpc/webrpc.VERSION=v0.99.0-verif"])] if isgen else [("core", "./cmd/core", [])]
        if iswire:
            builds = [("wire", "./cmd/wire", []), ("webrpc-test", "github.com/webrpc/webrpc/cmd/webrpc-test", [])]
        for name, pkg, fl in builds:
            r = subprocess.run(["go", "build", "-buildvcs=false", "-overlay", ov, "-o", os.path.join(d, name)] + fl + [pkg], cwd=check.HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                verdict, info = "nobuild", r.stdout.decode(errors="replace")[-200:]
        if verdict == "survived":
            props = list(GENP if isgen else CORE)
            if iswire:
                props = ["C35", "C36"]
            elif not isgen and "/ridl/" not in m["file"]:
                props = [p for p in props if p not in ("C25", "C14", "C06", "C15")]
            h = hits.setdefault(m["file"], {})
            props.sort(key=lambda p: -h.get(p, 0))
            props = m.get("props") or props
            for p in props:
                w = os.path.join(d, "w")
                shutil.rmtree(w, ignore_errors=True)
                os.makedirs(w)
                cmd = [os.path.join(d, "gen" if isgen else "wire" if iswire else "core"), "-prop", p, "-dir", w, "-out", w + "/out.json", "-cases", cases, "-seed", "1", "-shrink", "1ms", "-corpus", os.path.join("/verif/corpus", p)]
                e = dict(env, GOMAXPROCS="2" if p in ("C33",) else "1", GOTRACEBACK="all")
                rc, err, o = check.run(cmd, e, w, 150)
                if rc != 0:
                    try:
                        res = json.load(open(w + "/out.json"))
                        info = (res.get("error") or res.get("failure") or "")[:300]
                        if res.get("error"): rc = "error"
                    except Exception:
                        info = err.decode(errors="replace")[:300]
                    verdict, by = {1: "killed", None: "timeout", "error": "error"}.get(rc, "died%s" % rc), p
                    with lock:
                        h[p] = h.get(p, 0) + 1
                    if rc != "error" and rc != 2:
                        break
        with lock:
            out.write(json.dumps(dict(m, verdict=verdict, by=by, info=info)) + "\n")
            out.flush()
    shutil.rmtree(d, ignore_errors=True)

base = os.path.join(ROOT, "basecache")
if not os.path.isdir(base):
    env = dict(check.ENV, GOCACHE=base)
    for pkg in ("./cmd/core", "./cmd/gen", "github.com/webrpc/webrpc/cmd/webrpc-gen"):
        subprocess.run(["go", "build", "-buildvcs=false", "-o", "/dev/null", pkg], cwd=check.HARNESS, env=env, check=True)
ts = [threading.Thread(target=slot, args=(i,)) for i in range(slots)]
for t in ts: t.start()
for t in ts: t.join()

#!/usr/bin/env python3
"""Decides one property of /repo by generated cases.

  check.py <property> [quick|thorough]   run a check
  check.py --replay <file>               run one stored case again
  check.py --setup                       build everything once

Exit: 0 the property held on everything explored, 1 with a VIOLATION line if
not, 2 if the check itself could not be carried out.
"""
import base64, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
MODULE = b"github.com/webrpc/webrpc"
START = time.time()

# property -> (binary, race detector, shards, GOMAXPROCS)
TEXT = {"C11", "C15", "C16", "C17"}  # with coverage-guided fuzzing of texts
FUZZED = {"C%02d" % i for i in range(1, 39)} - {"C24", "C28", "C29", "C33", "C35", "C36"}
GEN = {"C26", "C27", "C28", "C29", "C30", "C31", "C32"}
RACE = {"C33"}
WIRE = {"C35", "C36"}


def group(pid):
    if pid in GEN:
        return "gen"
    if pid in WIRE:
        return "wire"
    return "race" if pid in RACE else "core"


def die(msg):
    print("ERROR:", msg, flush=True)
    sys.exit(2)


def environ():
    env = dict(os.environ)
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE, check=True).stdout
        for kv in out.split(b"\0"):
            k, _, v = kv.partition(b"=")
            if k in (b"PATH", b"GOTOOLCHAIN", b"GOPROXY", b"GOMODCACHE", b"GOCACHE", b"GOPATH", b"GOROOT"):
                env[k.decode()] = v.decode()
    except (OSError, subprocess.CalledProcessError):
        pass
    env.update(GOFLAGS="-mod=mod", GOSUMDB="off", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off")
    for k in list(env):
        if k.startswith("WEBRPC"):
            del env[k]
    env.pop("GODEBUG", None)
    return env


ENV = environ()


def build(groups, tmp):
    """Builds the workers from the working tree of the repository."""
    mod = open(os.path.join(HARNESS, "go.mod")).read()
    mod = mod.replace("=> /repo", "=> " + REPO).replace("=> ./", "=> " + HARNESS + "/")
    modfile = os.path.join(tmp, "go.mod")
    open(modfile, "w").write(mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(tmp, "go.sum"))
    out = {}
    for g in groups:
        cmds = []
        if g == "core":
            cmds = [("core", [], "./cmd/core")]
        elif g == "race":
            cmds = [("core-race", ["-race"], "./cmd/core")]
        elif g == "gen":
            cmds = [("gen", [], "./cmd/gen"),
                    ("webrpc-gen", ["-ldflags", "-X github.com/webrpc/webrpc.VERSION=v0.99.0-verif"], "github.com/webrpc/webrpc/cmd/webrpc-gen")]
        elif g == "wire":
            cmds = [("wire", [], "./cmd/wire"), ("webrpc-test", [], "github.com/webrpc/webrpc/cmd/webrpc-test")]
        for name, flags, pkg in cmds:
            target = os.path.join(tmp, name)
            cmd = ["go", "build", "-buildvcs=false", "-modfile", modfile, "-o", target] + flags + [pkg]
            r = subprocess.run(cmd, cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                die("build failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
            out.setdefault(g, target)
    return out


def worker_env(pid, tmp, procs):
    env = dict(ENV)
    env["GOMAXPROCS"] = str(procs)
    env["GOTRACEBACK"] = "all"
    env["GORACE"] = "halt_on_error=1 exitcode=66"
    env["VERIF_CLI"] = os.path.join(tmp, "webrpc-gen")
    env["VERIF_TEST"] = os.path.join(tmp, "webrpc-test")
    return env


def run(cmd, env, cwd, timeout):
    """Runs a worker in its own process group; its output goes to files."""
    with open(os.path.join(cwd, "stderr"), "wb+") as err, open(os.path.join(cwd, "stdout"), "wb+") as out:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
        err.seek(0)
        e = err.read(400000)
        out.seek(0)
        return rc, e, out.read(400000)


class Death(Exception):
    pass


def death(rc, err, d):
    """Says how a worker ended that gave no verdict: (kind, text), kind is
    '' when it isn't the doing of the code under test."""
    text = err.decode(errors="replace")
    if rc == 7:
        try:
            kind, _, rest = open(os.path.join(d, "died.txt")).read().partition("\n")
        except OSError:
            return "", "no reason given"
        return kind, rest
    if rc == 66 and "DATA RACE" in text:
        i = text.index("WARNING: DATA RACE")
        return ("race" if MODULE in err[err.index(b"WARNING: DATA RACE"):] else ""), text[i:i + 4000]
    m = re.search(r"^(panic: |fatal error: |SIGSEGV|unexpected fault)", text, re.M)
    if m:
        body = text[m.start():]
        return ("crash" if MODULE.decode() + "/" in body or "text/template" in body else ""), body[:4000]
    if rc is not None and rc >= 0:
        return "exit", "the process exited with status %d\n%s" % (rc, text[-3000:])
    return "", "ended with %s\n%s" % (rc, text[-3000:])


def replay(binary, pid, path, tmp, procs=2, timeout=150):
    """Returns (verdict, text): ok, fail, error, or the kind of death."""
    d = tempfile.mkdtemp(dir=tmp)
    try:
        rc, err, out = run([binary, "-prop", pid, "-dir", d, "-replay", path], worker_env(pid, tmp, procs), d, timeout)
        o = out.decode(errors="replace")
        if rc == 0 and o.rstrip().endswith("ok"):
            return "ok", ""
        if rc == 1 and o.startswith("FAIL "):
            return "fail", o[5:]
        if rc == 2:
            return "error", err.decode(errors="replace")[-3000:]
        kind, text = death(rc, err, d)
        return kind or "error", text
    finally:
        shutil.rmtree(d, ignore_errors=True)


def ddmin(data, test, until):
    """Cuts bytes out of data as long as the test says that it still fails."""
    n = 2
    while len(data) > 1 and time.time() < until:
        size = max(1, len(data) // n)
        cut = False
        i = 0
        while i < len(data) and time.time() < until:
            cand = data[:i] + data[i + size:]
            if test(cand):
                data, cut = cand, True
            else:
                i += size
        if not cut:
            if size == 1:
                break
            n = min(n * 2, len(data))
    return data


def minimise(binary, pid, case, kind, tmp, limit=45):
    """Cuts down the texts of a case that ends the process."""
    until = time.time() + limit
    path = os.path.join(tmp, "min.json")

    def fails(c):
        json.dump(c, open(path, "w"))
        return replay(binary, pid, path, tmp, timeout=30)[0] == kind

    body = case["case"]
    if not isinstance(body, dict):
        return case

    def shrink(holder, key):
        try:
            data = base64.b64decode(holder[key], validate=True)
        except Exception:
            return

        def test(cand):
            old = holder[key]
            holder[key] = base64.b64encode(cand).decode()
            if fails(case):
                return True
            holder[key] = old
            return False
        ddmin(data, test, until)

    if isinstance(body.get("files"), dict):
        for k in list(body["files"]):
            if k != "main.ridl" and time.time() < until:
                old = body["files"].pop(k)
                if not fails(case):
                    body["files"][k] = old
        for k in list(body["files"]):
            shrink(body["files"], k)
    if isinstance(body.get("jsonText"), str):
        shrink(body, "jsonText")
    return case


def fuzz(pid, tmp, seed):
    """Coverage-guided search: mutates texts and the bits that the generator
    draws from. Returns (statistics, failing case or None, errors)."""
    pkg = {"core": "core", "gen": "gen"}[group(pid)]
    binary = os.path.join(tmp, "fuzz")
    cmd = ["go", "test", "-c", "-fuzz=.", "-modfile", os.path.join(tmp, "go.mod"), "-o", binary, "./fuzz/" + pkg]
    r = subprocess.run(cmd, cwd=HARNESS, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return [], None, ["build failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:])]
    stats = []
    secs = int(os.environ.get("VERIF_FUZZTIME", "90"))
    for mode in (["text"] if pid in TEXT else []) + ["bits"]:
        d = os.path.join(tmp, "fuzz-" + mode)
        os.mkdir(d)
        env = worker_env(pid, tmp, 2)
        env.update(VERIF_PROP=pid, VERIF_DIR=d, VERIF_SEED=str(seed), VERIF_FUZZ=mode, VERIF_DEEP="1")
        env.pop("GOMAXPROCS")
        rc, err, out = run([binary, "-test.run=^$", "-test.fuzz=^FuzzProperty$", "-test.fuzztime=%ds" % secs, "-test.parallel=8",
                            "-test.fuzzminimizetime=50x", "-test.fuzzcachedir=" + os.path.join(d, "cache")], env, d, secs * 3 + 600)
        text = (out + err).decode(errors="replace")
        execs = re.findall(r"execs: (\d+)", text)
        new = re.findall(r"new interesting: (\d+)", text)
        stats.append({"input": mode, "seconds": secs, "executions": int(execs[-1]) if execs else 0,
                      "inputs_with_new_coverage": int(new[-1]) if new else 0})
        if rc == 0:
            continue
        for h in glob.glob(os.path.join(d, "*", "harness.txt")):
            return stats, None, [open(h).read()]
        failed = sorted(glob.glob(os.path.join(d, "*", "failed.json")), key=os.path.getsize)
        if failed and mode == "bits":
            env["VERIF_BITS"] = failed[0][:-4] + "bits"
            sub = os.path.join(d, "reduce")
            os.mkdir(sub)
            env["VERIF_DIR"] = sub
            run([binary, "-test.run=^TestReduce$"], env, sub, 200)
            failed = sorted(failed + glob.glob(os.path.join(sub, "*", "failed.json")), key=os.path.getsize)
        # processes that died left the case they were at
        died = [os.path.join(os.path.dirname(f), "current.json") for f in glob.glob(os.path.join(d, "*", "died.txt"))]
        current = sorted(glob.glob(os.path.join(d, "*", "current.json")), key=os.path.getmtime, reverse=True)
        return stats, (failed[:4] + died + current)[:40], [] if failed else ["fuzzing ended with %s\n%s" % (rc, text[-3000:])]
    return stats, None, []


def store(pid, case):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    b = json.dumps(case, indent=1, ensure_ascii=True, sort_keys=True).encode()
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha1(b).hexdigest()[:12]))
    open(path, "wb").write(b)
    return path


def show(text, n=4000):
    for line in text[:n].split("\n"):
        # never let output of a case look like a verdict
        print("  | " + "".join(c if c.isprintable() else repr(c)[1:-1] for c in line))


def main():
    args = sys.argv[1:]
    if not args:
        die(__doc__)
    base = os.path.join(VERIF, ".build")
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="run-", dir=base)
    try:
        if args[0] == "--setup":
            build(["core", "race", "gen", "wire"], tmp)
            return 0
        if args[0] == "--replay":
            path = os.path.abspath(args[1])
            pid = json.load(open(path))["property"]
            g = group(pid)
            bins = build([g], tmp)
            for _ in range(20 if g == "race" else 1):
                v, text = replay(bins[g], pid, path, tmp, 8 if g == "race" else 2)
                if v != "ok":
                    break
            print(v)
            show(text, 20000)
            if v == "ok":
                return 0
            if v == "error":
                return 2
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
            return 1
        tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(args[0], tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid, tier, tmp):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    useed = seed % (1 << 63) or 0x9E3779B97F4A7C15
    g = group(pid)
    binary = build([g], tmp)[g]
    shards, procs = (4, 4) if g == "race" else (8, 2)
    limit = float(os.environ.get("VERIF_LIMIT", "780" if tier == "quick" else "5400"))
    # no new cases after this time, on a machine that is slower than expected
    # the quick tier ends with fewer cases; the thorough tier uses all of it
    budget = float(os.environ.get("VERIF_BUDGET", "420" if tier == "quick" else "600"))
    runs = [None] * shards
    stop = threading.Event()

    def work(i):
        d = os.path.join(tmp, "w%d" % i)
        os.mkdir(d)
        cmd = [binary, "-prop", pid, "-seed", str(useed), "-tier", tier, "-shard", str(i), "-shards", str(shards),
               "-out", os.path.join(tmp, "out%d.json" % i), "-dir", d, "-corpus", os.path.join(VERIF, "corpus", pid)]
        cmd += ["-budget", "%ds" % max(1, budget - (time.time() - START))]
        if os.environ.get("VERIF_CASES"):
            cmd += ["-cases", os.environ["VERIF_CASES"]]
        runs[i] = run(cmd, worker_env(pid, tmp, procs), d, max(10, limit - (time.time() - START)))

    ts = [threading.Thread(target=work, args=(i,)) for i in range(shards)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    results, failures, deaths, errors = [], [], [], []
    hashes = set()
    for i, (rc, err, out) in enumerate(runs):
        f = os.path.join(tmp, "out%d.json" % i)
        res = None
        if os.path.exists(f):
            try:
                res = json.load(open(f))
            except ValueError:
                pass
        if res is not None and rc in (0, 1, 2):
            results.append(res)
            try:
                b = open(f + ".hashes", "rb").read()
                hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            except OSError:
                pass
            if res.get("error"):
                errors.append(res["error"])
            elif res["failed"]:
                failures.append(res)
            elif rc != 0:
                errors.append("worker ended with %s\n%s" % (rc, err.decode(errors="replace")[-3000:]))
        elif rc is None:
            errors.append("out of time")
        elif rc == 2 and b"goroutine " not in err:
            errors.append(err.decode(errors="replace")[-3000:])
        else:
            deaths.append((i, rc, err))

    violation = None
    for res in sorted(failures, key=lambda r: len(json.dumps(r["failCase"]["case"]))):
        violation = res["failCase"]
        break
    if violation is None:
        for i, rc, err in deaths:
            d = os.path.join(tmp, "w%d" % i)
            kind, text = death(rc, err, d)
            cur = os.path.join(d, "current.json")
            try:
                case = json.load(open(cur))
            except (OSError, ValueError):
                errors.append("worker died before its first case: %s" % text)
                continue
            if not kind:
                errors.append("worker died: " + text)
                continue
            again, atext = "ok", ""
            for _ in range(3):
                again, atext = replay(binary, pid, cur, tmp, procs)
                if again not in ("ok", "error"):
                    break
            if again in ("ok", "error") and kind not in ("race", "crash"):
                # the process ended, but not because of this case alone
                errors.append("worker died (%s), the case alone passes: %s\n%s" % (kind, text, atext))
                continue
            case["failure"] = "%s: %s" % (kind, text)
            if again == kind and kind in ("crash", "exit"):
                case = minimise(binary, pid, case, kind, tmp)
                cur = os.path.join(tmp, "final.json")
                json.dump(case, open(cur, "w"))
                k2, t2 = replay(binary, pid, cur, tmp, procs)
                if k2 == kind:
                    case["failure"] = "%s: %s" % (kind, t2)
            violation = case
            break

    guided = []
    if tier == "thorough" and violation is None and not errors and pid in FUZZED:
        guided, cands, errs = fuzz(pid, tmp, seed)
        for path in cands or []:
            k, text = replay(binary, pid, path, tmp)
            if k in ("ok", "error"):
                continue
            violation = json.load(open(path))
            if k in ("crash", "exit", "fail"):
                violation = minimise(binary, pid, violation, k, tmp)
                path = os.path.join(tmp, "final.json")
                json.dump(violation, open(path, "w"))
                k2, t2 = replay(binary, pid, path, tmp)
                text = t2 if k2 == k else text
            violation["failure"] = "%s: %s" % (k, text) if k != "fail" else text
            break
        if violation is None:
            errors += errs

    cov = {
        "evaluations": sum(r["evals"] for r in results),
        "distinct_nontrivial": len(hashes),
        "rule": results[0]["rule"] if results else "",
        "samples": [s for r in results for s in (r.get("samples") or [])][:8],
        "classes": {},
        "cases_enumerated_exhaustively": sum(r["enumerated"] for r in results),
        "regression_cases": sum(r["corpus"] for r in results),
        "workers": shards,
    }
    for k in ("unenumerated", "ungenerated"):
        if sum(r[k] for r in results):
            cov["cases_left_out_for_time_" + k[2:]] = sum(r[k] for r in results)
    if guided:
        cov["coverage_guided"] = guided
        cov["evaluations"] += sum(g["executions"] for g in guided)
    for r in results:
        for k, v in r["classes"].items():
            cov["classes"][k] = cov["classes"].get(k, 0) + v
    assumptions = (results[0].get("assume") or []) if results else []
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": assumptions + ["the reference models in /verif/harness state the property correctly", "the Go toolchain and rapid"],
        "wall_s": round(time.time() - START, 2), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    dest = os.path.join(VERIF, "evidence", pid + ".json")
    with open(dest + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(dest + ".tmp", dest)

    if violation is not None:
        path = store(pid, violation)
        print("property %s is broken:" % pid)
        show(violation.get("failure", ""))
        print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
        return 1
    if errors:
        for e in errors[:3]:
            print("ERROR:", e)
        return 2
    if not cov["distinct_nontrivial"]:
        print("ERROR: no case counts")
        return 2
    print("%s: held on %d evaluations (%d distinct non-trivial cases), %.1f s" % (pid, cov["evaluations"], cov["distinct_nontrivial"], time.time() - START))
    return 0


if __name__ == "__main__":
    sys.exit(main())

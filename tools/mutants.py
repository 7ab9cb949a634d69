#!/usr/bin/env python3
"""mutants.py OUT.jsonl [--n N] [--seed S] [--workers W] [--files GLOB,...]
Mutation testing of the checks: sample one-edit changes of the files of /repo (tools/mutate), apply each to a scratch copy,
drop those the build or the repository's own tests notice, run the quick checks on the others and record what survives.
Nothing in /repo or /verif is written but OUT.jsonl; the copies live in /tmp/mw and are removed at the end."""
import json, os, random, shutil, subprocess, sys, threading, queue, argparse, glob
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--n", type=int, default=200); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--workers", type=int, default=3); ap.add_argument("--cpus", type=int, default=2); ap.add_argument("--files", default="")
ap.add_argument("--scale", default="0.5"); ap.add_argument("--list", help="jsonl of mutants to take in place of a sample")
a = ap.parse_args()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOWORK="off", GOTOOLCHAIN="local", GOPROXY="off", PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"])
ENV.pop("GOROOT", None)
def sh(cmd, t=600, **k):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace", **k)
    try:
        o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 99, "timeout"
OTHERS = ["C14", "C18", "C16", "C17", "C22", "C20", "C21", "C28", "C29", "C07", "C05", "C06", "C01", "C02", "C04", "C08", "C09", "C10", "C11", "C12", "C13", "C25", "C24", "C23", "C26", "C27", "C15", "C03", "C19"]
FIRST = {"number.go": ["C01"], "string.go": ["C02"], "regex.go": ["C03"], "internal/regen": ["C03"], "enum.go": ["C04"], "const.go": ["C04"], "object.go": ["C05"], "array.go": ["C06"],
  "multiple_type.go": ["C07"], "constraint.go": ["C07", "C11"], "merge.go": ["C08", "C09", "C11"], "combination.go": ["C09"], "if.go": ["C10"], "not.go": ["C11"], "reference": ["C12", "C13"],
  "document.go": ["C13", "C12"], "fetchers.go": ["C23", "C24", "C25"], "cli/": ["C26", "C27"], "rand/": ["C21"], "generator.go": ["C16", "C18"], "parse.go": ["C07", "C12"], "error.go": ["C17"],
  "json.go": ["C15"], "internal/jsonschema/formats.go": ["C11", "C09", "C02"], "internal/util": ["C11", "C08", "C01"]}
shutil.rmtree("/tmp/mw", ignore_errors=True); os.makedirs("/tmp/mw"); sh("cp -a /repo /tmp/mw/base; cp -a %s/harness /tmp/mw/harness" % VERIF)
sh("cd %s/tools/mutate && go build -o /tmp/mutate ." % VERIF, env=ENV)
files = [f for f in sh("git -C /tmp/mw/base ls-files '*.go'")[1].split() if "_test" not in f and "test_data" not in f and "test_utils" not in f]
if a.files: files = [f for f in files if any(x in f for x in a.files.split(","))]
if a.list: muts = [json.loads(l) for l in open(a.list)]
else:
    muts = [json.loads(l) for l in sh("cd /tmp/mw/base && /tmp/mutate " + " ".join(files))[1].splitlines()]
    random.Random(a.seed).shuffle(muts)
    # spread over the files: big files do not take everything
    per = {}
    for m in muts: per.setdefault(m["file"], []).append(m)
    tot = sum(len(v) ** .7 for v in per.values())
    muts = [m for f, v in per.items() for m in v[:max(1, round(a.n * len(v) ** .7 / tot))]]
    random.Random(a.seed).shuffle(muts)
done = set()
if os.path.exists(a.out): done = {(d["file"], d["off"], d["len"], d["new"]) for d in map(json.loads, open(a.out))}
q = queue.Queue()
for m in muts:
    if (m["file"], m["off"], m["len"], m["new"]) not in done: q.put(m)
print(q.qsize(), "mutants", flush=True)
lock = threading.Lock(); tally = {}
baseline = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def tests(d, env):
    rc, o = sh("timeout 150 unshare -Urn sh -c \"ip link set lo up; exec go test -json -vet=off -count=1 -timeout 2m -skip '^(TestComplex|TestReferenceSelfReferencing)$' ./...\"", 200, cwd=d + "/repo", env=env)
    failed = [json.loads(l) for l in o.splitlines() if l.startswith("{")]
    bad = [e for e in failed if e.get("Action") == "fail" and e.get("Test")]
    return rc == 0 or (bool(failed) and not bad and rc == 0)
def work(i):
    d = "/tmp/mw/%d" % i; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    sh("cp -a /tmp/mw/base %s/repo" % d)
    mod = open(VERIF + "/harness/go.mod").read().replace("=> /repo", "=> %s/repo" % d)
    open(d + "/h.mod", "w").write(mod); shutil.copy(VERIF + "/harness/go.sum", d + "/h.sum")
    shutil.copy(VERIF + "/known_findings.txt", d); os.makedirs(d + "/evidence")
    cpus = ",".join(str(i * a.cpus + k) for k in range(a.cpus)); env = dict(ENV, VERIF_ROOT=d, VERIF_CLI=d + "/cli", VERIF_SEED="1", VERIF_SCALE=a.scale)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = d + "/repo/" + m["file"]; src = open("/tmp/mw/base/" + m["file"], "rb").read()
        r = dict(m)
        try:
            open(p, "wb").write(src[:m["off"]] + m["new"].encode() + src[m["off"] + m["len"]:])
            rc, o = sh("taskset -c %s go build -o %s/cli ./cli" % (cpus, d), 200, cwd=d + "/repo", env=env)
            if rc: r["res"] = "nobuild"
            elif not tests(d, env): r["res"] = "tests"
            else:
                rc, o = sh("taskset -c %s go build -modfile %s/h.mod -o %s/verif ." % (cpus, d, d), 300, cwd="/tmp/mw/harness", env=env)
                if rc: r["res"] = "harness: " + o[-300:]
                else:
                    first = [c for k, v in FIRST.items() if m["file"].startswith(k) for c in v]
                    r["res"] = "SURVIVED"
                    for c in first + [c for c in OTHERS if c not in first]:
                        rc, o = sh("nice -n 5 taskset -c %s %s/verif check %s quick" % (cpus, d, c), 900, cwd=d, env=env)
                        if rc == 1: r["res"] = "caught " + c; break
                        if rc: r["res"] = "exit %d %s %s" % (rc, c, o[-200:]); break
        finally:
            open(p, "wb").write(src)
        with lock:
            k = r["res"].split()[0]; tally[k] = tally.get(k, 0) + 1
            open(a.out, "a").write(json.dumps(r) + "\n")
            if k not in ("nobuild", "tests", "caught"): print(m["file"], m["line"], m["what"], repr(m["new"][:60]), r["res"][:100], flush=True)
    shutil.rmtree(d, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print(tally)

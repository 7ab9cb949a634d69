#!/usr/bin/env python3
"""reverts.py OUT.jsonl [--workers W] [--scale S]: every fix: commit of /repo taken back on a scratch copy of HEAD (those that
revert cleanly), the quick check of its property run against it, then the others until one reports. Writes only OUT.jsonl."""
import json, os, shutil, subprocess, threading, queue, argparse, re
ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--workers", type=int, default=3); ap.add_argument("--cpus", type=int, default=2); ap.add_argument("--scale", default="1")
a = ap.parse_args()
VERIF = "/verif"
ENV = dict(os.environ, GOFLAGS="-mod=readonly", GOWORK="off", GOTOOLCHAIN="local", GOPROXY="off", PATH="/opt/veriftools/go1.25.14/bin:" + os.environ["PATH"]); ENV.pop("GOROOT", None)
def sh(cmd, t=600, **k):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, errors="replace", **k)
    try: o, _ = p.communicate(timeout=t); return p.returncode, o
    except subprocess.TimeoutExpired: os.killpg(p.pid, 9); p.communicate(); return 99, "timeout"
B = "/tmp/rv"; shutil.rmtree(B, ignore_errors=True); os.makedirs(B); sh("cp -a /repo %s/base; cp -a %s/harness %s/harness" % (B, VERIF, B))
props = {}
for l in open(VERIF + "/known_findings.txt"):
    m = re.match(r"fixed: property=(C\d\d) ([0-9a-f]{7})", l)
    if m: props.setdefault(m[2], []).append(m[1])
commits = [l.split(" ", 1) for l in sh("git -C %s/base log --format='%%h %%s'" % B)[1].splitlines() if " fix:" in l]
ALL = ["C%02d" % i for i in range(1, 30)]
q = queue.Queue(); [q.put(c) for c in commits]; lock = threading.Lock()
def work(i):
    d = "%s/%d" % (B, i); os.makedirs(d + "/evidence"); sh("cp -a %s/base %s/repo" % (B, d))
    open(d + "/h.mod", "w").write(open(VERIF + "/harness/go.mod").read().replace("=> /repo", "=> %s/repo" % d)); shutil.copy(VERIF + "/harness/go.sum", d + "/h.sum"); shutil.copy(VERIF + "/known_findings.txt", d)
    cpus = ",".join(str(i * a.cpus + k) for k in range(a.cpus)); env = dict(ENV, VERIF_ROOT=d, VERIF_CLI=d + "/cli", VERIF_SEED="1", VERIF_SCALE=a.scale, VERIF_RACE=d + "/race")
    while True:
        try: h, s = q.get_nowait()
        except queue.Empty: break
        r = {"commit": h, "subject": s, "props": props.get(h, [])}
        rc, o = sh("git -c user.name=x -c user.email=x@x revert -n %s" % h, cwd=d + "/repo")
        if rc: r["res"] = "conflict"
        elif sh("taskset -c %s go build -o %s/cli ./cli" % (cpus, d), 200, cwd=d + "/repo", env=env)[0]: r["res"] = "nobuild"
        else:
            rc, o = sh("taskset -c %s sh -c 'go build -modfile %s/h.mod -o %s/verif . && go build -race -modfile %s/h.mod -o %s/race .'" % (cpus, d, d, d, d), 600, cwd=B + "/harness", env=env)
            if rc: r["res"] = "harness " + o[-200:]
            else:
                r["res"] = "SURVIVED"
                for c in r["props"] + [c for c in ALL if c not in r["props"]]:
                    rc, o = sh("taskset -c %s %s/verif check %s quick" % (cpus, d, c), 900, cwd=d, env=env)
                    if rc == 1: r["res"] = ("own " if c in r["props"] else "other ") + c; r["what"] = [x for x in o.splitlines() if "facet=" in x][:1]; break
                    if rc: r["res"] = "exit %d %s %s" % (rc, c, o[-200:]); break
        sh("git revert --abort; git reset -q --hard; git clean -qfd", cwd=d + "/repo")
        with lock: open(a.out, "a").write(json.dumps(r) + "\n"); print(h, r["props"], r["res"][:120], s, flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]; [t.start() for t in ts]; [t.join() for t in ts]
shutil.rmtree(B, ignore_errors=True)

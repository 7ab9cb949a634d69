#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)create seeded/<ID> from tools/seeds.py against /repo's HEAD and verify each:
applies, builds, stable tests pass, demo passes without and fails with it. With --check also runs the quick
check of the property against it."""
import json, os, subprocess, sys, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
DEMO = '''#!/bin/bash
# exit 0 when the values are as they should be, 1 when not; run in /repo
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOWORK=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zz_demo || exit 2
cd "$tmp" && ./demo
'''
HEAD = '''package main

import (
%s
	chaff "github.com/ryanolee/go-chaff"
%s)

func fail(f string, a ...any) {
	fmt.Printf("FAIL: "+f+"\\n", a...)
	os.Exit(1)
}

// parse parses a schema that must not be reported as unusable.
func parse(schema string) chaff.RootGenerator {
	g, err := chaff.ParseSchemaStringWithDefaults(schema)
	if err != nil {
		fail("%%v", err)
	}
	if g.Metadata.Errors.HasErrors() {
		fail("reported: %%v", g.Metadata.Errors.CollectErrors())
	}
	return g
}

var _ = json.Marshal

'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def clean():
    sh("git -C /repo checkout -- . && git -C /repo clean -fdq")
def original():
    f = n = None
    for l in sh("git -C /repo diff -U0").stdout.splitlines():
        if l.startswith("--- "): f = l[6:]
        elif l.startswith("@@"): n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and f:
            if l[1:].strip() and sh("git -C /repo blame -s -L %d,%d HEAD -- %s" % (n, n, f)).stdout.lstrip("^").startswith(BASE): return True
            n += 1
    return False
BASE = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout[:7]
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    check = "--check" in sys.argv
    assert sh("git -C /repo status --porcelain").stdout == "", "repo not clean"
    bad = 0
    for s in seeds.SEEDS:
        if args and s["id"] not in args and s["property"] not in args: continue
        d = os.path.join(ROOT, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        msg = []
        try:
            for f, old, new in s["edits"]:
                p = "/repo/" + f
                t = open(p).read()
                if t.count(old) != 1: msg.append("%s: %d matches in %s of %r" % (s["id"], t.count(old), f, old[:60])); continue
                open(p, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            if not original(): msg.append("no line of the original repository is changed")
            if msg: raise SystemExit
            imports = "".join('\t"%s"\n' % i for i in sorted(set(["encoding/json", "fmt", "os"] + s.get("imports", []))))
            extra = "".join('\t%s\n' % i for i in s.get("extra_imports", []))
            if s.get("sh"):
                open(d + "/demo.sh", "w").write(s["sh"])
                if os.path.exists(d + "/main.go"): os.remove(d + "/main.go")
            else:
                open(d + "/demo.sh", "w").write(DEMO)
            if "demo" in s:
                open(d + "/main.go", "w").write(HEAD % (imports, extra) + s["demo"].strip() + "\n")
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            b = sh("bash /opt/vp/build.sh")
            if b.returncode: msg.append("build: " + b.stdout[-500:] + b.stderr[-500:])
            t = sh("bash /root/st.sh").stdout
            if "; 0 missing" not in t.replace(" stable; 0", "; 0"): msg.append("tests: " + t.strip())
            r = sh("bash %s/demo.sh" % d, cwd="/repo")
            if r.returncode == 0: msg.append("demo passes with the patch")
            if r.returncode not in (0, 1): msg.append("demo exit %d: %s" % (r.returncode, (r.stdout + r.stderr)[-500:]))
            caught = ""
            if check and not msg:
                c = sh("./run.sh check %s quick" % s["property"], cwd=ROOT, env=dict(os.environ, VERIF_SEED="1"))
                caught = {0: "MISSED", 1: "caught"}.get(c.returncode, "error %d" % c.returncode)
                if c.returncode == 1: caught += " " + [l for l in (c.stdout+c.stderr).splitlines() if "VIOLATION" in l or "what" in l.lower()][0][:150]
            demo_out = r.stdout.strip()[:150]
        except SystemExit:
            demo_out = caught = ""
        finally:
            clean()
        if not msg:
            for i in range(3):
                r = sh("bash %s/demo.sh" % d, cwd="/repo")
                if r.returncode: msg.append("demo fails on the clean tree: " + (r.stdout + r.stderr)[-500:]); break
        print(s["id"], s["property"], "BAD " + "; ".join(msg) if msg else "ok", "|", demo_out, "|", caught, flush=True)
        bad += bool(msg)
        if msg: shutil.rmtree(d)
    sys.exit(bad > 0)
main()

#!/usr/bin/env python3
"""mk.py DEFS.py [ID...]: makes /verif/seeded/<id>/ from definitions, after
confirming in a scratch copy that the change builds, passes the stable tests,
and that the demonstration tells the two trees apart."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SEEDS = []

def seed(id, prop, edits, needs, breaks, demo, full=False, pkg=None):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, full=full, pkg=pkg))

DEMO_SH = r'''#!/bin/bash
# Builds the package from the current directory in a scratch GOPATH and runs the
# demonstration against it: exit 0 when the property holds, 1 when it does not.
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
root=$scratch/src/github.com/splendidmoons/suriya-go
mkdir -p "$root" "$scratch/src/demo"
for f in *.go; do
  case $f in *_test.go) continue;; esac
  %s
  cp "$f" "$root/"
done
%s
cp "$here/demo.go.txt" "$scratch/src/demo/main.go"
export GO111MODULE=off GOPATH=$scratch GOFLAGS= GOENV=off GOTOOLCHAIN=local CGO_ENABLED=0 GOCACHE=${GOCACHE:-$scratch/cache}
cd "$scratch" || exit 2
go build -o "$scratch/prog" demo || exit 3
"$scratch/prog"
'''
HIDDEN = 'case $f in astro_moon.go|cal_day.go|calendar_event.go|event.go|half_moon.go|major_event.go|uposatha_moon.go) continue;; esac'

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(s):
    out = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    extra = ""
    if s["full"]:
        extra = 'cp -r "$here/stubs/." "$scratch/src/"'
        st = os.path.join(out, "stubs")
        shutil.rmtree(st, ignore_errors=True)
        shutil.copytree(os.path.join(VERIF, "stubs"), st)
    if s["pkg"]:
        # the demonstration is a file of the command's own package
        extra += '\ncp %s/*.go "$scratch/src/demo/"; rm -f "$scratch"/src/demo/*_test.go\nsed -i "s/^func main()/func commandMain()/" "$scratch"/src/demo/*.go' % s["pkg"]
    demosh = DEMO_SH % ("" if s["full"] else HIDDEN, extra)
    if s["pkg"]:
        demosh = demosh.replace('"$scratch/src/demo/main.go"', '"$scratch/src/demo/zdemo.go"')
    open(os.path.join(out, "demo.sh"), "w").write(demosh)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.go.txt"), "w").write(s["demo"])
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1, ensure_ascii=False)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", "/repo", repo])
        env = dict(os.environ, HOME="/root")
        r = sh(["bash", os.path.join(out, "demo.sh")], cwd=repo)
        if r.returncode != 0:
            return "demo fails on the clean tree: " + r.stdout[-1500:]
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit of %s: %d matches of %r" % (f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        sh(["gofmt", "-l", "-w"] + list({f for f, _, _ in s["edits"]}), cwd=repo)
        d = subprocess.run(["git", "diff"], cwd=repo, stdout=subprocess.PIPE, text=True).stdout
        open(os.path.join(out, "patch.diff"), "w").write(d)
        # builds and tests in a private GOPATH
        gp = os.path.join(tmp, "gp", "src", "github.com", "splendidmoons")
        os.makedirs(gp)
        os.symlink(repo, os.path.join(gp, "suriya-go"))
        ov = json.load(open("/opt/vp/overlay.json"))
        rep = {os.path.join(repo, os.path.basename(k)): "" for k in ov["Replace"]}
        rep.update({os.path.join(gp, "suriya-go", os.path.basename(k)): "" for k in ov["Replace"]})
        json.dump({"Replace": rep}, open(os.path.join(tmp, "ov.json"), "w"))
        e = dict(os.environ, GO111MODULE="off", GOPATH=os.path.join(tmp, "gp"), GOFLAGS="-overlay=" + os.path.join(tmp, "ov.json"), CGO_ENABLED="0")
        r = sh(["go", "test", "-vet=off", "-count=1", "github.com/splendidmoons/suriya-go"], cwd=repo, env=e)
        if r.returncode != 0:
            return "tests fail: " + r.stdout[-1500:]
        r = sh("gofmt -e *.go suriya/*.go utils/*.go >/dev/null", shell=True, cwd=repo)
        if r.returncode != 0:
            return "does not parse: " + r.stdout
        r = sh(["bash", os.path.join(out, "demo.sh")], cwd=repo)
        if r.returncode != 1:
            return "demo gives %d with the change: %s" % (r.returncode, r.stdout[-1500:])
        return "ok: " + r.stdout.strip()[-200:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

exec(open(sys.argv[1]).read())
want = sys.argv[2:]
for s in SEEDS:
    if want and s["id"] not in want:
        continue
    print(s["id"], s["prop"], make(s), flush=True)

#!/usr/bin/env python3
"""plant.py SPEC...: turns bug descriptions into /verif/seeded/<id>/ after confirming them in a scratch copy.

A SPEC is a Python file defining id, property, edits=[(file, old, new)], demo (Lisp text) or
demo_go (Go main program), expect (text of the output on the unchanged tree), needs, breaks."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", HOME="/root")
DEMO = '''#!/bin/bash
# Runs demo.%(ext)s with the interpreter of the current directory and compares its output.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
%(build)s
(cd "$t" && %(run)s) >"$t/out.txt" 2>&1 </dev/null
diff "$here/expected.txt" "$t/out.txt"
'''
def demo_sh(go):
    if go:
        return DEMO % dict(ext="go", build='mkdir "$t/demo" && cp "$here/demo.go" "$t/demo/main.go" && cp go.sum "$t/demo/" && sed "s/^module .*/module demo/" go.mod >"$t/demo/go.mod" || exit 2\n'
          'echo "require github.com/hymkor/gmnlisp v0.0.0" >>"$t/demo/go.mod"\necho "replace github.com/hymkor/gmnlisp => $PWD" >>"$t/demo/go.mod"\n'
          '(cd "$t/demo" && go build -o ../prog .) || exit 2', run='timeout 120 ./prog')
    return DEMO % dict(ext="lsp", build='go build -o "$t/gmnlisp" ./cmd/gmnlisp || exit 2', run='timeout 120 ./gmnlisp "$here/demo.lsp"')
def sh(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests(cwd):
    out = sh("go test -json ./... 2>&1", cwd, shell=True).stdout
    ok = set()
    for line in out.splitlines():
        try: e = json.loads(line)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "::" + e["Test"]); ok.add(e["Test"])
    w = tempfile.mkdtemp(prefix="lisp")
    try:
        sh("go build -o %s/gm ./cmd/gmnlisp && python3 /opt/vp/lisptests.py %s/gm %s >%s/out.txt" % (w, w, w, w), cwd, shell=True)
        for line in open(os.path.join(w, "out.txt")):
            if line.startswith("PASS "): ok.add(line.strip())
    finally: shutil.rmtree(w)
    return ok
def main(spec):
    g = {}
    exec(open(spec).read(), g)
    t = tempfile.mkdtemp(prefix="plant")
    try:
        r = os.path.join(t, "repo"); d = os.path.join(t, "d"); os.mkdir(d)
        shutil.copytree("/repo", r, symlinks=True)
        go = g.get("demo_go")
        open(os.path.join(d, "demo." + ("go" if go else "lsp")), "w").write((go or g["demo"]).lstrip("\n"))
        open(os.path.join(d, "expected.txt"), "w").write(g["expect"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(demo_sh(go)); os.chmod(os.path.join(d, "demo.sh"), 0o755)
        base = tests(r)
        x = sh(["bash", os.path.join(d, "demo.sh")], r)
        if x.returncode: print(g["id"], "DEMO FAILS ON CLEAN TREE\n" + x.stdout); return 1
        for f, old, new in g["edits"]:
            p = os.path.join(r, f); s = open(p, newline="").read()
            if "\r\n" in s: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1: print(g["id"], f, "old text occurs", s.count(old), "times"); return 1
            open(p, "w", newline="").write(s.replace(old, new))
            base0 = sh(["git", "show", "e3a5853:" + f], r).stdout
            bad = [l for l in old.splitlines() if l.strip() and l not in new.splitlines() and l.strip() not in base0]
            if bad: print(g["id"], "note: not an original line:", bad[0].strip())
            if not f.endswith(".go"): print(g["id"], "note: not a Go file:", f)
        x = sh("gofmt -l *.go pkg cmd; go build ./...", r, shell=True)
        if x.returncode or x.stdout.strip(): print(g["id"], "BUILD", x.stdout); return 1
        lost = base - tests(r)
        if lost: print(g["id"], "TESTS FAIL", sorted(lost)[:5]); return 1
        x = sh(["bash", os.path.join(d, "demo.sh")], r)
        if not x.returncode: print(g["id"], "DEMO PASSES WITH THE PATCH"); return 1
        diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE).stdout
        o = os.path.join(V, "seeded", g["id"]); shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
        for n in os.listdir(d): shutil.copy(os.path.join(d, n), o)
        open(os.path.join(o, "patch.diff"), "wb").write(diff)
        json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
        print(g["id"], "ok; demo differs:", x.stdout.strip().replace("\n", " | ")[:200])
    finally:
        shutil.rmtree(t)
    return 0
sys.exit(max(map(main, sys.argv[1:])))

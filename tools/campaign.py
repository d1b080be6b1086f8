#!/usr/bin/env python3
"""campaign.py MUTATIONS.json OUT.jsonl SECONDS SEED LANE WORKERS
Applies random mutations to a scratch copy of /repo; those that pass the tests go through the checks."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
muts = [json.loads(l) for l in open(sys.argv[1])]
out, limit, seed, lane, workers = sys.argv[2], float(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), sys.argv[6]
lanes = int(os.environ.get("LANES", "2"))
random.Random(seed).shuffle(muts)
muts = [m for m in muts if "_test" not in m["file"]][lane::lanes]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", HOME="/root")
ORDER = {
 "array.go": "P16 P14 P05 P24 P25 P09 P11", "atom.go": "P14 P11 P27 P18 P23 P05 P28", "builtinclass.go": "P18 P05 P25 P08 P21", "class.go": "P18 P05 P25 P08 P24 P11 P09",
 "cmds.go": "P23 P14 P05 P30 P13 P10 P21 P29", "cond.go": "P08 P04 P05 P26 P21 P29", "cons.go": "P11 P15 P01 P07 P24 P10 P05 P14", "convert.go": "P25 P05 P13 P29",
 "error.go": "P08 P04 P02 P05 P26 P11 P21 P18", "format.go": "P12 P11 P19 P05 P21", "functionref.go": "P21 P05 P29 P27 P01 P23", "generic.go": "P18 P05 P26 P29 P03",
 "hash.go": "P17 P05 P24 P14", "io.go": "P19 P20 P05 P12 P10 P22", "lambda.go": "P01 P07 P23 P21 P29 P26 P02", "list.go": "P15 P14 P16 P29 P05 P24 P21",
 "macro.go": "P23 P10 P11 P21 P29", "misc.go": "P29 P21 P05 P25", "newtypes.go": "P14 P19 P11 P05 P25 P12", "number.go": "P13 P05 P14 P25 P11", "operator.go": "P13 P05 P14 P29",
 "parse.go": "P10 P13 P25 P05", "progn.go": "P02 P03 P04 P06 P07 P26 P22", "sequence.go": "P16 P28 P05 P15 P24 P29 P14 P12", "setq.go": "P01 P02 P24 P06 P29 P22", "string.go": "P28 P16 P05 P14 P11 P24",
 "utils.go": "P26 P05 P21 P29 P27", "world.go": "P21 P29 P01 P22 P27 P26 P30 P12", "cmd/gmnlisp/main.go": "P30", "pkg/parser/main.go": "P10 P25 P19 P13", "pkg/parser/tokenize.go": "P10 P19 P25",
 "pkg/regexp/main.go": "P31", "pkg/subst/main.go": "P31", "pkg/wildcard/main.go": "P31", "pkg/command/main.go": "P31"}
ALL = "P01 P02 P03 P04 P06 P07 P08 P21 P29 P05 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P20 P22 P23 P24 P25 P26 P27 P28 P30 P31".split()
t = tempfile.mkdtemp(prefix="camp")
r = os.path.join(t, "repo"); mc = os.path.join(t, "mc"); v = os.path.join(t, "v"); os.mkdir(v)
shutil.copytree("/repo", r, symlinks=True); shutil.copytree(V + "/mc", mc)
s = open(mc + "/go.mod").read(); open(mc + "/go.mod", "w").write(s.replace("=> /repo", "=> " + r))
shutil.copy(V + "/known_findings.json", v)
def sh(cmd, cwd, timeout=240):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout); return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); p.communicate(); return 99, ""
def tests():
    rc, o = sh("timeout 100 go test ./... 2>&1", r)
    if rc: return "tests"
    w = os.path.join(t, "lisp"); os.makedirs(w, exist_ok=True)
    rc, o = sh("go build -o %s/gm ./cmd/gmnlisp && timeout 100 python3 /opt/vp/lisptests.py %s/gm %s" % (w, w, w), r)
    n = sum(1 for l in o.splitlines() if l.startswith("PASS "))
    shutil.rmtree(w)
    return n
base = tests(); print("base", base)
start = time.time(); n = 0
try:
    for m in muts:
        if time.time() - start > limit: break
        f = os.path.join(r, m["file"]); b = open("/repo/" + m["file"], "rb").read()
        nb = b[:m["start"]] + m["new"].encode() + b[m["end"]:]
        res = dict(m, old=b[m["start"]:m["end"]].decode()[:80], text=b.splitlines()[m["line"] - 1].decode().strip())
        open(f, "wb").write(nb)
        try:
            rc, o = sh("go vet . ./cmd/... ./pkg/... 2>&1", r)
            if rc: continue
            x = tests()
            if x != base: continue
            n += 1
            rc, o = sh("go build -o %s/bin . && cd %s && go build -o %s/gm ./cmd/gmnlisp" % (t, r, t), mc)
            if rc: res["caught"] = "build"; continue
            first = os.path.join(t, "first")
            order = ORDER.get(m["file"], "").split()
            if os.environ.get("FULL"): order += [p for p in ALL if p not in order]
            res["caught"] = None; t0 = time.time()
            for p in order:
                if os.path.exists(first): os.remove(first)
                q = subprocess.Popen([t + "/bin", "check", p, "-workers", workers, "-secs", os.environ.get("SECS", "25")], cwd=v, env=dict(ENV, VERIF_DIR=v, MC_FIRST=first, MC_CLI=t + "/gm"),
                                     stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
                while q.poll() is None and not os.path.exists(first) and time.time() - t0 < 900: time.sleep(0.1)
                if os.path.exists(first):
                    try: os.killpg(q.pid, signal.SIGKILL)
                    except OSError: pass
                    q.communicate(); res["caught"] = p; res["case"] = open(first).read()[:300]; break
                o = q.communicate()[0]
                if q.returncode == 1: res["caught"] = p; res["case"] = o[:300]; break
            res["secs"] = round(time.time() - t0, 1)
        finally:
            open(f, "wb").write(b)
            if "caught" in res: open(out, "a").write(json.dumps(res, ensure_ascii=False) + "\n")
finally:
    shutil.rmtree(t)
    for d in os.listdir("/tmp"):
        pass
print("done", n)

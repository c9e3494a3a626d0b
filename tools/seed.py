#!/usr/bin/env python3
"""Builds and validates /verif/seeded/<id>/ from tools/seedsrc/bugs/<id>.py.

Each bug file defines PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (go source),
optionally KIT=False, RACE=True.  usage: seed.py [--check] ID...
"""
import json, os, shutil, subprocess, sys, glob
HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.path.join(HERE, "seedsrc")
OUT = "/verif/seeded"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local")

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

def do(bid, check):
    ns = {"SRC": SRC}
    exec(open(f"{SRC}/bugs/{bid}.py").read(), ns)
    wt = f"/tmp/wt/seed-{bid}"
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs("/tmp/wt", exist_ok=True)
    sh(f"git -C /repo worktree prune")
    r = sh(f"git -C /repo worktree add --detach {wt} HEAD")
    assert r.returncode == 0, r.stdout
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return f"{bid}: {f}: text occurs {s.count(old)} times: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
            sh("gofmt -w " + p)
        g = sh("gofmt -l . | grep -v _test.go", cwd=wt)
        if g.stdout.strip():
            return f"{bid}: gofmt: {g.stdout}"
        diff = subprocess.run(["git", "diff"], cwd=wt, stdout=subprocess.PIPE).stdout
        # original lines changed?
        d = f"{OUT}/{bid}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "wb").write(diff)
        demo = open(SRC + "/demo.sh").read().replace("@RACE@", "-race" if ns.get("RACE") else "")
        open(d + "/demo.sh", "w").write(demo)
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.go", "w").write(ns["DEMO"].lstrip())
        if ns.get("KIT", True):
            shutil.copy(SRC + "/kit.go.txt", d + "/kit.go")
        sh("gofmt -w .", cwd=d)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("go build ./... && go test -json -vet=off -count=1 ./...", cwd=wt, env=ENV, timeout=600)
        failed, passed = [], set()
        for l in r.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Test") and e["Action"] == "fail": failed.append(e["Test"])
            if e.get("Test") and e["Action"] == "pass": passed.add(e["Package"] + "/" + e["Test"])
        if r.returncode and not failed:
            return f"{bid}: BUILD: {r.stdout[-600:]}"
        st = stable()
        miss = sorted(st - passed)
        msg = f"{bid} [{ns['PROPERTY']}]: tests failed={failed} "
        if miss: msg += f"MISSING stable {miss[:4]} "
        a = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=300)
        b = sh(f"bash {d}/demo.sh", cwd=wt, timeout=300)
        msg += f"demo clean={a.returncode} bug={b.returncode} "
        if a.returncode != 0: msg += "CLEAN-FAILS " + a.stdout[-400:]
        if b.returncode == 0: msg += "BUG-PASSES"
        else: msg += repr(b.stdout.strip()[-160:])
        if check:
            import time
            t = time.time()
            e = dict(os.environ, VERIF_REPO=wt, VERIF_EVIDENCE=f"/tmp/wt/ev-{bid}", VERIF_TIER="quick", VERIF_SEED="1")
            os.makedirs(f"/tmp/wt/ev-{bid}", exist_ok=True)
            c = sh(f"python3 check.py {ns['PROPERTY']}", cwd="/verif", env=e, timeout=900)
            v = [l for l in c.stdout.splitlines() if "VIOLATION" in l]
            msg += f"\n    CHECK rc={c.returncode} {time.time()-t:.0f}s {v[:1] or c.stdout[-300:]}"
            shutil.rmtree(f"/tmp/wt/ev-{bid}", ignore_errors=True)
        return msg
    finally:
        sh(f"git -C /repo worktree remove --force {wt}")

args = sys.argv[1:]
check = "--check" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.path.basename(p)[:-3] for p in glob.glob(SRC + "/bugs/*.py"))
for b in ids:
    print(do(b, check), flush=True)

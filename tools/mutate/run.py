#!/usr/bin/env python3
"""Mutation run: run.py OUT.jsonl WORKERS FILE[:SAMPLE]... ; needs /tmp/mutate built from this directory."""
import json, os, random, shutil, subprocess, sys, threading, queue, signal
LISTS = {
 "gen.conn.go": "C11 C09 C21 C13 C12 C10 C16 C17 C20 C19 C14 C22 C23",
 "client.go": "C15 C16 C17 C19",
 "gen.option.go": "C17 C10",
 "gen.record_batch.go": "C18",
 "gen.broker.go": "C14 C10 C20 C15 C16",
 "ring/buffer.go": "C07 C08 C09 C12",
 "message/decoder.go": "C04 C05 C01 C03 C12 C13",
 "message/encoder.go": "C04 C06 C01 C18 C02",
 "message/keys.go": "C10 C14 C03",
 "message/sizeof/sizeof.go": "C02 C18",
 "message/messages.gen.go": "C01 C02 C03 C05",
}
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local")
def sh(cmd, cwd, env=ENV, timeout=100):
    p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, "timeout"
out, workers = sys.argv[1], int(sys.argv[2])
q = queue.Queue()
jobs = []
for spec in sys.argv[3:]:
    f, _, n = spec.partition(":")
    total = int(subprocess.check_output(["/tmp/mutate", "/repo/" + f]))
    ids = list(range(total))
    if n:
        random.Random(int(os.environ.get("MSEED", "1"))).shuffle(ids)
        ids = ids[:int(n)]
    jobs += [(f, i) for i in ids]
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done.add((r["file"], r["n"]))
for j in jobs:
    if j not in done: q.put(j)
lock = threading.Lock()
def rec(**r):
    with lock:
        open(out, "a").write(json.dumps(r) + "\n")
def work(w):
    d = f"/tmp/mut/w{w}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/mut", exist_ok=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git"))
    ev = f"/tmp/mut/ev{w}"
    while True:
        try: f, n = q.get_nowait()
        except queue.Empty: break
        p = subprocess.run(["/tmp/mutate", "/repo/" + f, str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        desc = p.stderr.decode().strip()
        open(f"{d}/{f}", "wb").write(p.stdout)
        try:
            rc, o = sh("go build ./...", d)
            if rc: rec(file=f, n=n, desc=desc, res="nobuild"); continue
            pkg = {"r": "./ring", "m": "./message/..."}.get(f[0] if "/" in f else "", "")
            if pkg:
                rc, o = sh(f"go test -vet=off -count=1 {pkg}", d, timeout=40)
                if rc: rec(file=f, n=n, desc=desc, res="tests"); continue
            res = "SURVIVED"; und = []
            for c in LISTS[f].split():
                shutil.rmtree(ev, ignore_errors=True); os.makedirs(ev)
                rc, o = sh(f"python3 check.py {c}", os.environ.get("VERIFCOPY","/verif"), dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev, VERIF_TIER="quick", VERIF_SEED="1"), timeout=500)
                if rc == 1 and "VIOLATION" in o:
                    res = c; break
                if rc: und.append((c, rc, o[-300:]))
            rec(file=f, n=n, desc=desc, res=res, und=und)
        finally:
            shutil.copy("/repo/" + f, f"{d}/{f}")
    shutil.rmtree(d, ignore_errors=True); shutil.rmtree(ev, ignore_errors=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print("finished")

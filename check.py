#!/usr/bin/env python3
"""Runs one check: builds the harness against the library's current tree, runs it,
judges what it observed, writes evidence/<ID>.json.

  check.py C07            tier and seed from VERIF_TIER and VERIF_SEED
  VERIF_REPO=/path        check another copy of the library (default /repo)

Exit 0: the property held on everything explored.  Exit 1 with a VIOLATION line: it
is broken.  Exit 3: the check could not decide."""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
LIB = "github.com/savaki/kafka"

# id: build ("plain", "race" or "perturbed" = race + schedule perturbation), level
CHECKS = {
    "C01": ("plain", "exploration"),
    "C02": ("plain", "exploration"),
    "C03": ("plain", "exploration"),
    "C04": ("plain", "exploration"),
    "C05": ("plain", "exploration"),
    "C06": ("plain", "fault_enumeration"),
    "C07": ("perturbed", "exploration"),
    "C08": ("perturbed", "exploration"),
    "C09": ("perturbed", "exploration"),
    "C10": ("race", "exploration"),
    "C11": ("perturbed", "fault_enumeration"),
    "C12": ("race", "exploration"),
    "C13": ("plain", "exploration"),
    "C14": ("plain", "exploration"),
    "C15": ("plain", "exploration"),
    "C16": ("perturbed", "fault_enumeration"),
    "C17": ("plain", "exploration"),
    "C18": ("plain", "exploration"),
    "C19": ("perturbed", "exploration"),
    "C20": ("perturbed", "exploration"),
    "C21": ("perturbed", "fault_enumeration"),
    "C22": ("plain", "exploration"),
    "C23": ("race", "exploration"),
    "C24": ("race", "exploration"),
    "C25": ("perturbed", "exploration"),
    "C26": ("plain", "exploration"),
    "C27": ("plain", "exploration"),
    "C28": ("race", "exploration"),
}

# further parts of a check, with builds of their own
PARTS = {
    "C09": [("plain", "C09L")],
    "C10": [("plain", "C10L")],
    "C12": [("plain", "C12L")],
    "C23": [("plain", "C23L")],
    "C24": [("plain", "C24L")],
    "C26": [("scaled", "C26L")],
}

TIME_SCALE = 10000  # of the "scaled" build, see scaled_overlay


def scaled_overlay(work):
    """An overlay of the standard library in which time runs TIME_SCALE times as fast:
    clocks, timers, sleeps and the deadlines of connections alike."""
    n = TIME_SCALE
    root = subprocess.run(["go", "env", "GOROOT"], stdout=subprocess.PIPE, text=True, env=dict(os.environ, GOTOOLCHAIN="local")).stdout.strip() + "/src/"
    edits = {
        "time/time.go": [
            ("		return subMono(runtimeNano()-startNano, t.ext)", "		return subMono((runtimeNano()-startNano)*timeScale, t.ext)"),
            ("		return subMono(t.ext, runtimeNano()-startNano)", "		return subMono(t.ext, (runtimeNano()-startNano)*timeScale)"),
            ("	mono -= startNano\n	sec += unixToInternal - minWall\n",
             "	mono -= startNano\n	wall := int64(nsec) + mono*(timeScale-1)\n	mono *= timeScale\n	sec += wall / 1e9\n	nsec = int32(wall % 1e9)\n	sec += unixToInternal - minWall\n"),
            ("// Now returns the current local time.\n", "const timeScale = %d\n\n// Now returns the current local time.\n" % n)],
        "time/sleep.go": [("	t := runtimeNano() + int64(d)\n", "	t := runtimeNano() + max(1, int64(d)/timeScale)\n")],
        "time/tick.go": [("when(d), int64(d), sendTime", "when(d), max(1, int64(d)/timeScale), sendTime"),
                         ("when(d), int64(d))", "when(d), max(1, int64(d)/timeScale))")],
        "internal/poll/fd_poll_runtime.go": [("		d = int64(time.Until(t))\n", "		d = int64(time.Until(t)) / %d\n" % n)],
        "runtime/time.go": [("	when := now + ns\n	if when < 0 { // check", "	when := now + max(1, ns/%d)\n	if when < 0 { // check" % n)],
    }
    replace = {}
    for name, list_ in edits.items():
        text = open(root + name).read()
        for a, b in list_:
            if text.count(a) != 1:
                raise ValueError("%s of this Go version is not as expected" % name)
            text = text.replace(a, b)
        path = os.path.join(work, "scaled_" + name.replace("/", "_"))
        with open(path, "w") as f:
            f.write(text)
        replace[root + name] = path
    path = os.path.join(work, "scaled.json")
    with open(path, "w") as f:
        json.dump({"Replace": replace}, f)
    return path


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) (.*)", line.strip())
        if m and m.group(1) == pid:
            out[m.group(2)] = True
    return out


class Undecided(Exception):
    pass


class HarnessDied(Undecided):
    pass


class Unavailable(Exception):
    """A build that this Go version does not allow; the rest of the check goes on."""


def build(kind, repo, work):
    env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod",
               GOSUMDB="off", CGO_ENABLED="1", HOME=os.environ.get("HOME") or "/root")
    src = os.path.join(VERIF, "harness")
    mod = os.path.join(work, "go.mod")
    with open(os.path.join(src, "go.mod")) as f:
        text = f.read()
    with open(mod, "w") as f:
        f.write(text.replace("=> /repo", "=> " + repo))
    out = os.path.join(work, "harness")
    cmd = ["go", "build", "-modfile", mod]
    if kind == "scaled":
        try:
            cmd += ["-overlay", scaled_overlay(work), "-tags", "scaled"]
        except (OSError, ValueError) as e:
            raise Unavailable(str(e))
    elif kind != "plain":
        cmd.append("-race")

    def go(args):
        return subprocess.run(args, cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

    overlay = False
    if kind == "perturbed":
        ov = os.path.join(work, "overlay")
        os.mkdir(ov)
        p = go(["go", "run", "-modfile", mod, "./instrument", repo, ov, ".", "ring"])
        if p.returncode == 0:
            p = go(cmd + ["-overlay", os.path.join(ov, "overlay.json"), "-o", out, "."])
            overlay = p.returncode == 0
        if not overlay:
            print("note: schedule perturbation unavailable, building without it:\n" + p.stdout[-2000:], file=sys.stderr)
    if not overlay:
        p = go(cmd + ["-o", out, "."])
        if p.returncode != 0:
            if kind == "scaled":
                raise Unavailable(p.stdout[-2000:])
            raise Undecided("the harness does not build against the library:\n" + p.stdout[-4000:])
    return out, overlay


def crash_in_library(text):
    """The process died: is the innermost non-runtime frame of the crashing goroutine the library's?"""
    m = re.search(r"^(panic: |fatal error: |unexpected fault address|SIGSEGV|runtime: )", text, re.M)
    if not m:
        return None
    tail = text[m.start():]
    g = re.search(r"^goroutine \d+ .*\[.*\]:\n", tail, re.M)
    frames = tail[g.end():] if g else tail
    frames = frames.split("\n\n")[0]
    if "panic(" in frames:
        frames = frames[frames.rindex("panic("):]
    for line in frames.split("\n"):
        if line.startswith(LIB):
            return tail[:6000]
        if line.startswith("main.") or line.startswith("verif/"):
            return None
    return None


def races(pattern):
    lib, other = [], []
    for path in sorted(glob.glob(pattern)):
        text = open(path, errors="replace").read()
        for rep in re.split(r"^={18}\n", text, flags=re.M):
            if "DATA RACE" not in rep:
                continue
            # a report belongs to the library when one of the two accesses happens in
            # its code or in code called from it
            accesses = re.split(r"^Goroutine \d+", rep, flags=re.M)[0]
            (lib if LIB in accesses else other).append(rep)
    return lib, other


def main():
    if sys.argv[1:] == ["--setup"]:  # checks build for themselves; this only warms caches
        for kind in ("plain", "perturbed", "scaled"):
            work = tempfile.mkdtemp(prefix="verif-setup-")
            try:
                build(kind, os.environ.get("VERIF_REPO") or "/repo", work)
            except Undecided as e:
                print(e)
                return 1
            except Unavailable as e:
                print("note: the %s build is unavailable: %s" % (kind, e))
            finally:
                shutil.rmtree(work, ignore_errors=True)
        return 0
    pid = sys.argv[1]
    kind, level = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    repo = os.environ.get("VERIF_REPO") or "/repo"
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    start = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        try:
            return run(pid, kind, level, tier, seed, repo, evdir, start, work)
        except HarnessDied as e:  # not an answer; try once more from another seed
            print("note: %s; trying once more" % e, file=sys.stderr)
            shutil.rmtree(work, ignore_errors=True)
            work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
            return run(pid, kind, level, tier, seed + 1000003, repo, evdir, start, work)
    except Undecided as e:
        print("UNDECIDED property=%s: %s" % (pid, e))
        return 3
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, kind, level, tier, seed, repo, evdir, start, work):
    total = {"counters": {}, "extra": {}, "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "assumptions": [], "known": [],
             "race_reports": 0, "race_reports_in_harness_only": 0, "builds": [], "build_s": 0}
    violation = None
    for i, (kind, name) in enumerate([(kind, pid)] + PARTS.get(pid, [])):
        dir_ = os.path.join(work, name)
        os.mkdir(dir_)
        try:
            violation = part(name, kind, tier, seed, repo, start, dir_, total)
        except Unavailable as e:
            print("note: the part %s of the check is unavailable: %s" % (name, e), file=sys.stderr)
            total["builds"].append(kind + " unavailable")
        shutil.rmtree(dir_, ignore_errors=True)
        if violation:
            break
    return report(pid, level, tier, seed, evdir, start, total, violation)


def part(name, kind, tier, seed, repo, start, work, total):
    """Builds and runs one part, adds what it observed to total, returns a violation or None."""
    began = time.time()
    binary, perturbed = build(kind, repo, work)
    total["build_s"] += round(time.time() - began, 3)
    total["builds"].append(kind + ("" if kind != "perturbed" or perturbed else " (perturbation unavailable)"))
    res_path = os.path.join(work, "result.json")
    env = dict(os.environ, GORACE="log_path=%s/race halt_on_error=0 history_size=3 exitcode=0 atexit_sleep_ms=100" % work,
               GOTRACEBACK="all", TMPDIR=work)

    def limits():
        os.setsid()
        if kind == "plain":
            limit = (96 if name == "C23L" else 24) << 30  # thousands of connections reserve much and use little
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))

    outf = open(os.path.join(work, "stdout"), "wb")
    errf = open(os.path.join(work, "stderr"), "wb")
    p = subprocess.Popen([binary, "-check", name, "-tier", tier, "-seed", str(seed & (2**63 - 1)), "-out", res_path, "-repo", repo],
                         cwd=work, env=env, stdin=subprocess.DEVNULL, stdout=outf, stderr=errf, preexec_fn=limits)
    cap = max(60, 800 - (time.time() - start)) if tier == "quick" else 6 * 3600
    timed_out = False
    try:
        p.wait(timeout=cap)
    except subprocess.TimeoutExpired:
        timed_out = True
        os.killpg(p.pid, signal.SIGQUIT)
        try:
            p.wait(timeout=20)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    outf.close()
    errf.close()
    stderr = open(os.path.join(work, "stderr"), errors="replace").read()
    res = None
    if os.path.exists(res_path):
        try:
            res = json.load(open(res_path))
        except ValueError:
            pass

    violation = None  # (what, detail)
    lib_races, other_races = races(os.path.join(work, "race.*"))
    if res and res["status"] == "violation":
        violation = (res["what"], res["detail"])
    elif lib_races:
        violation = ("data race in the library", lib_races[0])
    elif res is None and not timed_out:
        c = crash_in_library(stderr)
        if c:
            violation = ("the library crashed the process", c)
    if not violation:
        if other_races:  # not the library's: reported, but no reason to give no answer
            print("note: data race in the harness itself:\n" + other_races[0], file=sys.stderr)
        if timed_out:
            raise Undecided("no answer within %d s\n%s" % (cap, stderr[-6000:]))
        if res is None:
            raise HarnessDied("the harness died (status %s):\n%s" % (p.returncode, stderr[:6000]))
        if res["status"] != "ok":
            raise HarnessDied("%s\n%s\n%s" % (res["what"], res.get("detail", ""), stderr[-6000:]))
    res = res or {}
    total["evaluations"] += res.get("evaluations", 0)
    total["distinct_nontrivial"] += res.get("distinct_nontrivial", 0)
    if res.get("rule"):
        total["rule"] += ("; besides: " if total["rule"] else "") + res["rule"]
    total["samples"] += res.get("samples") or []
    total["known"] += res.get("known") or []
    total["assumptions"] += res.get("assumptions") or []
    for k, v in (res.get("counters") or {}).items():
        total["counters"][k] = total["counters"].get(k, 0) + v
    total["extra"].update(res.get("extra") or {})
    total["race_reports"] += len(lib_races)
    total["race_reports_in_harness_only"] += len(other_races)
    return violation


def report(pid, level, tier, seed, evdir, start, total, violation):
    known = known_findings(pid)
    seen_known = []
    for k in total["known"]:
        if k in known:
            seen_known.append(k)
        elif not violation:
            violation = ("a defect that is not a listed finding", k)

    cov = {
        "evaluations": total["evaluations"],
        "distinct_nontrivial": total["distinct_nontrivial"],
        "rule": total["rule"],
        "samples": total["samples"],
        "observed": total["counters"],
        "build": ", ".join(total["builds"]),
        "race_reports": total["race_reports"],
        "race_reports_in_harness_only": total["race_reports_in_harness_only"],
        "known_findings_seen": len(seen_known),
    }
    cov["observed"].update(total["extra"])
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": total["assumptions"], "wall_s": round(time.time() - start, 3),
          "violations": 1 if violation else 0}
    cov["build_s"] = round(total["build_s"], 3)
    if violation:
        replay = os.path.join(evdir, "%s.violation.txt" % pid)
        with open(replay, "w") as f:
            f.write("property %s: %s\n\n%s\n\nreproduce: VERIF_TIER=%s VERIF_SEED=%d %s/check.py %s\n" %
                    (pid, violation[0], violation[1], tier, seed, VERIF, pid))
        ev["coverage"]["violation"] = violation[0]
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if violation:
        print("%s\n%s" % (violation[0], violation[1][:3000]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("property %s held: %d evaluations, %d distinct, %s, %.1f s" %
          (pid, cov["evaluations"], cov["distinct_nontrivial"], json.dumps(cov["observed"]), time.time() - start))
    return 0


if __name__ == "__main__":
    sys.exit(main())

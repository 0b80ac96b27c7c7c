#!/usr/bin/env python3
"""Build and run the monitor of one property against /repo's working tree.

usage: run.py <property id> [--keep]

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken.
Exit 2: the check itself could not decide (does not build, observed nothing).
See DESIGN.md for how verdicts are formed.
"""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "internal/verifmon"
MOD = "github.com/carlisia/bio-adapt"
NCPU = min(8, os.cpu_count() or 8)

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402


def go_env():
    e = dict(os.environ)
    gobin = "/opt/veriftools/go1.25.14/bin"
    if not os.path.isdir(gobin):
        gobin = os.path.dirname(shutil.which("go1.25") or shutil.which("go") or "/usr/bin/go")
    e["PATH"] = gobin + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             GOSUMDB="off", GONOSUMDB="*", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    return e


def build(work, cfg, pid):
    """Compile the harness of this property into /repo through an overlay."""
    repl = {}
    pkg = cfg.get("pkg", PKG)
    files = [os.path.join(VERIF, "harness", "common_test.go")]
    for pat in cfg["files"]:
        files += sorted(glob.glob(os.path.join(VERIF, "harness", pat)))
    for f in files:
        src = f
        if pkg != PKG:  # in-package harness: only the package clause differs
            text = re.sub(r"(?m)^package verifmon$", "package " + cfg["package"], open(f).read(), count=1)
            src = os.path.join(work, "src_" + os.path.basename(f))
            open(src, "w").write(text)
        repl[os.path.join(REPO, pkg, "zz_verif_" + os.path.basename(f))] = src
    ov = os.path.join(work, "overlay.json")
    json.dump({"Replace": repl}, open(ov, "w"))
    modfile = os.path.join(work, "go.mod")
    mod = open(os.path.join(REPO, "go.mod")).read()
    for req in cfg.get("require", []):
        mod += "\nrequire " + req + "\n"
    open(modfile, "w").write(mod)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "go.sum"))
    if cfg.get("require"):
        extra = open(os.path.join(VERIF, "harness", "extra.sum")).read()
        with open(os.path.join(work, "go.sum"), "a") as f:
            f.write("\n" + extra)
    binp = os.path.join(work, "mon.bin")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", modfile, "-overlay", ov, "-o", binp]
    if cfg.get("race"):
        cmd.append("-race")
    cmd.append("./" + pkg)
    p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(binp):
        print(p.stdout[-6000:])
        print("ERROR: %s: the monitor does not build against this tree" % pid)
        sys.exit(2)
    if cfg.get("program"):  # the program itself, as a user builds it
        p = subprocess.run(["go", "build", "-modfile", modfile, "-o", os.path.join(work, "program"), cfg["program"]], cwd=REPO,
                           env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            print("ERROR: %s: the program does not build" % pid)
            sys.exit(2)
        p = subprocess.run(["go", "build", "-race", "-modfile", modfile, "-o", os.path.join(work, "program-race"), cfg["program"]], cwd=REPO,
                           env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout[-6000:])
            print("ERROR: %s: the program does not build with the race detector" % pid)
            sys.exit(2)
    return binp


FRAME = re.compile(r"^\s*(github\.com/carlisia/bio-adapt/[^\s(]+(?:\([^)]*\))?[^\s(]*)\(", re.M)


def frames(text):
    out = []
    for line in text.splitlines():
        m = re.match(r"\s*(?:created by )?(github\.com/carlisia/bio-adapt[^\s]*)", line)
        if m and "/verifmon" not in m.group(1) and "zz_verif" not in line:
            name = m.group(1)
            name = re.sub(r"\((0x|\.\.\.|\{)[^\n]*$", "", name)
            name = re.sub(r"\(\)$", "", name)
            out.append(name.replace(MOD + "/", ""))
    return out


def parse_races(logs):
    """One entry per data race report in code under test."""
    found = []
    for path in logs:
        text = open(path, errors="replace").read()
        for rep in text.split("==================")[1:]:
            if "DATA RACE" not in rep:
                continue
            parts = re.split(r"\n\n", rep)
            tops = []
            for part in parts:
                if re.search(r"(Read|Write|read|write) at 0x", part):
                    # is the racing access itself made by code under test (or a
                    # library it calls), rather than by the harness?
                    inner = None
                    for line in part.splitlines():
                        m = re.match(r"\s+([\w./-]+(?:\.\(?\*?\w+\)?)*[^\s(]*)\(", line)
                        if m and "carlisia/bio-adapt" in line:
                            inner = line.strip()
                            break
                    if inner and "verifmon" not in inner:
                        tops.append((frames(part) or ["?"])[0])
            if tops:
                found.append(("data race: " + " / ".join(sorted(set(tops))), rep.strip()[:4000]))
    return found


def parse_crash(err):
    """Classify the death of a shard from its stderr: (signature, text) or None."""
    for marker in ("panic:", "fatal error:", "SIGQUIT", "SIGSEGV"):
        i = err.find(marker)
        if i >= 0:
            text = err[i:]
            fr = []
            if marker in ("panic:", "fatal error:", "SIGSEGV"):
                # the first goroutine listed is the one that died
                first = re.search(r"\ngoroutine [^\n]*\n(.*?)(\n\n|\Z)", text, re.S)
                fr = frames(first.group(1)) if first else []
                head = text.splitlines()[0][:200]
                if "deadlock" in head or "all goroutines" in head:
                    fr = fr or frames(text)
                    return ("deadlock", text[:6000]) if fr else None
                if not fr:
                    return None
                inner = first.group(1)
                # innermost bio-adapt frame must not be the harness itself
                for line in inner.splitlines():
                    if "carlisia/bio-adapt" in line and not line.startswith("\t"):
                        if "verifmon" in line:
                            return None
                        break
                return ("crash: " + re.sub(r"0x[0-9a-f]+|\d+", "N", head)[:80], text[:6000])
    return None


def parse_hang(err):
    blocked = []
    for g in re.split(r"\n\n", err):
        if g.startswith("goroutine ") or "\ngoroutine " in g:
            fr = frames(g)
            if fr:
                blocked.append((fr[0], g[:1500]))
    return blocked


def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        code = check(pid, cfg, tier, seed, t0, work)
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("kept", work)
    sys.exit(code)


def check(pid, cfg, tier, seed, t0, work):
    binp = build(work, cfg, pid)
    t_build = time.time() - t0
    shards = cfg.get("shards", NCPU)
    only = os.environ.get("VERIF_ONLY", "")
    if only:
        shards = 1
    scale = 1.0 if tier == "quick" else float(cfg.get("thorough", 20))
    limit = cfg.get("limit", 420) if tier == "quick" else cfg.get("thorough_limit", 6 * 3600)
    procs = []
    for i in range(shards):
        e = go_env()
        e.update(VERIF_SEED=str(seed), VERIF_SHARD=str(i), VERIF_SHARDS=str(shards), VERIF_PROGRAM=os.path.join(work, "program"), VERIF_PROGRAM_RACE=os.path.join(work, "program-race"),
                 VERIF_SCALE=os.environ.get("VERIF_SCALE", str(scale)), VERIF_OUT=os.path.join(work, "out%d.json" % i),
                 GOTRACEBACK="all", GOMAXPROCS=str(cfg.get("procs", 2)),
                 GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=%s" % os.path.join(work, "race%d" % i))
        e["TMPDIR"] = work
        wd = os.path.join(work, "wd%d" % i)
        os.mkdir(wd)
        out = open(os.path.join(work, "log%d" % i), "w")
        p = subprocess.Popen([binp, "-test.run", "^TestProp$", "-test.timeout", "0", "-test.parallel", "1"], cwd=wd, env=e, stdout=out, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL)
        procs.append((i, p))
    deadline = time.time() + limit
    hung = []
    for i, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            hung.append(i)
            p.send_signal(signal.SIGQUIT)
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()

    ev, keys, counters, samples, viol, rule = 0, set(), {}, [], [], ""
    errors = []
    for i, p in procs:
        outf = os.path.join(work, "out%d.json" % i)
        err = open(os.path.join(work, "log%d" % i), errors="replace").read()
        r = None
        if os.path.exists(outf):
            try:
                r = json.load(open(outf))
            except ValueError:
                r = None
        if r:
            ev += r["evaluations"]
            keys |= set(r["keys"] or [])
            for k, v in (r["counters"] or {}).items():
                counters[k] = max(counters.get(k, 0), v) if k.startswith("max ") else counters.get(k, 0) + v
            samples += r["samples"] or []
            rule = r["rule"]
            for v in r["violations"] or []:
                viol.append((v["sig"], v["detail"], "%s:%d" % (v["batch"], v["case"]), i))
        if r is None or not r.get("done"):
            if i in hung:
                b = parse_hang(err)
                if b:
                    viol.append(("hang: " + b[0][0], "no result after %d s; goroutines in code under test:\n" % limit + "\n\n".join(x[1] for x in b[:8]), "", i))
                else:
                    errors.append("shard %d did not end within %d s" % (i, limit))
            else:
                c = parse_crash(err)
                if c:
                    viol.append((c[0], c[1], "", i))
                else:
                    errors.append("shard %d ended without a result (exit %s):\n%s" % (i, p.returncode, err[-3000:]))
        races = parse_races(glob.glob(os.path.join(work, "race%d.*" % i)))
        counters["race reports"] = counters.get("race reports", 0) + len(races) if cfg.get("race") else 0
        for sig, text in races:
            viol.append((sig, text, "", i))
    if not cfg.get("race"):
        counters.pop("race reports", None)

    # whole-run oracles (rates over all shards)
    for agg in cfg.get("rates", []):
        bad, total = counters.get(agg["bad"], 0), counters.get(agg["of"], 0)
        if not only and total >= agg["min"] and bad > agg["max"] * total:
            viol.append(("rate: " + agg["bad"], "%d of %d %s, more than %.0f%%" % (bad, total, agg["bad"], 100 * agg["max"]), "", 0))

    known = load_known(pid)
    groups = {}
    for sig, detail, case, shard in viol:
        groups.setdefault(sig, []).append((detail, case, shard))
    new = 0
    lines = []
    repdir = os.path.join(VERIF, "evidence", "replays")
    for sig, items in sorted(groups.items()):
        if sig in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[sig]))
            continue
        new += 1
        os.makedirs(repdir, exist_ok=True)
        detail, case, shard = items[0]
        name = "%s-%s.json" % (pid, hashlib.sha1(sig.encode()).hexdigest()[:8])
        rel = os.path.join("evidence", "replays", name)
        json.dump({"property": pid, "signature": sig, "occurrences_recorded": len(items), "seed": seed, "tier": tier,
                   "case": case, "shard": "%d/%d" % (shard, shards), "detail": detail,
                   "replay": "VERIF_SEED=%d VERIF_TIER=%s %s python3 run.py %s" % (seed, tier, "VERIF_ONLY=%s" % case if case else "", pid)},
                  open(os.path.join(VERIF, rel), "w"), indent=1)
        if new <= 8:
            print("  %s: %s" % (sig, detail.splitlines()[0][:400] if detail else ""))
            lines.append("VIOLATION property=%s replay=%s" % (pid, rel))
    for l in lines:
        print(l)

    seen = sorted(set(samples))[:6]
    cov = {"evaluations": ev, "distinct_nontrivial": len(keys), "rule": rule, "samples": seen, "observed": counters,
           "processes": shards, "race_detector": bool(cfg.get("race")), "build_s": round(t_build, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": new},
              open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %s oracle evaluations, %d violations, %.1f s" % (
        pid, tier, ev, len(keys), counters.get("oracle evaluations", 0), new, time.time() - t0))
    if new:
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e)
        return 2
    if not only and (ev == 0 or len(keys) == 0):
        print("ERROR: nothing was observed")
        return 2
    return 0


def load_known(pid):
    known = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\w+) sig=\"([^\"]*)\" (.*)", line.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    return known


if __name__ == "__main__":
    main()

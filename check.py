#!/usr/bin/env python3
"""check.py PROP [quick|thorough]        decide one property against /repo's working tree
check.py replay PROP FILE               run one saved failing case again
check.py setup                          compile all harness areas once
check.py all [quick|thorough] [PROP..]  every check, one after another (development)

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
Exit 2: no answer (build failure, out of memory, time used up).
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time, hashlib, struct

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
GO = "/opt/veriftools/go1.27.3/bin"
AREAS = json.load(open(os.path.join(HERE, "harness", "areas.json")))
LIMIT = {"quick": 780, "thorough": 4 * 3600}


def areas_of(prop):
    return AREAS[prop]["area"].split(",")


def go_env():
    e = dict(os.environ)
    e["PATH"] = GO + ":" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e.update(HOME="/root", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOTOOLCHAIN="local",
             GOPROXY="off", GOSUMDB="off", GONOSUMDB="*", CGO_ENABLED="1", GO111MODULE="on", GOWORK="off")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def build(area, work):
    """Compile the area's harness against /repo as it is now."""
    h = os.path.join(HERE, "harness")
    mod = os.path.join(work, "go.mod")
    shutil.copy(os.path.join(h, "go.mod"), mod)
    shutil.copy(os.path.join(h, "go.sum"), os.path.join(work, "go.sum"))
    e = go_env()
    e["GOFLAGS"] = "-mod=mod -modfile=" + mod
    binary = os.path.join(work, area + ".bin")
    for attempt in range(3):
        p = subprocess.run(["go", "build", "-o", binary, "./" + area], cwd=h, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode == 0 or p.stdout.strip():
            break  # built, or the compiler said why not; otherwise it was killed
    if p.returncode != 0:
        print("build failed:\n" + p.stdout[-4000:])
        sys.exit(2)
    return binary


def run_env(prop, tier, seed, scale, out, scratch, **kw):
    e = go_env()
    e.update(VERIF_PROP=prop, VERIF_TIER=tier, HX_SEED=str(seed), HX_SCALE=str(scale), HX_OUT=out,
             HX_SCRATCH=scratch, TMPDIR=scratch, GODEBUG="cgocheck=0,randseednop=0", GOTRACEBACK="all")
    e.pop("GOLEARN_FULL_DEBUG", None)
    for k, v in kw.items():
        e[k] = v
    return e


def start(binary, env, errpath):
    err = open(errpath, "wb")
    return subprocess.Popen([binary], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                            stderr=err, start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            data = f.read()
        if len(data) > n:
            data = data[:n // 2] + b"\n...\n" + data[-n // 2:]
        return data.decode("utf8", "replace")
    except OSError:
        return ""


def check(prop, tier):
    t0 = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    except ValueError:
        seed = 1
    areas = areas_of(prop)
    nshard = AREAS[prop].get("shards", 8)
    if tier == "thorough":
        nshard = max(nshard, 8) if nshard > 1 else 1
    ev = os.path.join(HERE, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.remove(ev)
    work = tempfile.mkdtemp(prefix="vf-" + prop + "-", dir="/tmp")
    try:
        return _check(prop, tier, seed, areas, nshard, ev, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def _check(prop, tier, seed, areas, nshard, ev, work, t0):
    binaries = [build(area, work) for area in areas]
    procs = []
    scale = AREAS[prop].get("scale", {}).get(tier, 1) / nshard
    for s in range(nshard * len(areas)):
        binary, area = binaries[s // nshard], areas[s // nshard]
        scratch = os.path.join(work, "s%d" % s)
        os.mkdir(scratch)
        out = os.path.join(work, "out%d.json" % s)
        sseed = (abs(seed) * 1000003 + s * 7919 + 1) & 0x7fffffffffff
        kw = {"HX_PROBES": "1"} if s % nshard == 0 else {}
        env = run_env(prop, tier, sseed, scale, out, scratch, **kw)
        err = os.path.join(work, "err%d" % s)
        procs.append(dict(p=start(binary, env, err), binary=binary, area=area, env=env, out=out, err=err, scratch=scratch))
    deadline = t0 + LIMIT[tier]
    problems, violations = [], []
    for i, q in enumerate(procs):
        try:
            rc = q["p"].wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            stop(q["p"])
            problems.append("shard %d used up its time" % i)
            continue
        finally:
            pass
        if rc == 0 and os.path.exists(q["out"]):
            continue
        if rc in (3, -signal.SIGKILL, 137):
            problems.append("shard %d ended with %d: %s" % (i, rc, tail(q["err"], 1500)))
            continue
        # The process died in a case: believe it only if it happens again.
        first = tail(q["err"])
        shutil.rmtree(q["scratch"], ignore_errors=True)
        os.mkdir(q["scratch"])
        q["p"] = start(q["binary"], q["env"], q["err"] + ".again")
        try:
            rc2 = q["p"].wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            stop(q["p"])
            problems.append("shard %d: died (%d) and the second run used up its time" % (i, rc))
            continue
        full = tail(q["err"] + ".again", 1 << 20)
        if "goroutine " in full and "sjwhitworth/golearn" not in full and "/repo/" not in full:
            problems.append("shard %d: the harness itself failed: %s" % (i, first[:1500]))
            continue
        if rc2 == 0 or rc2 in (3, -signal.SIGKILL, 137):
            problems.append("shard %d died once (%d) but not again (%d): %s" % (i, rc, rc2, first[-1500:]))
            continue
        sub = tail(q["out"] + ".at")
        d = save(prop, sub, dict(property=prop, area=q["area"], sub=sub, kind="process death", exit=rc2,
                                 env={k: q["env"][k] for k in ("VERIF_PROP", "VERIF_TIER", "HX_SEED", "HX_SCALE")},
                                 message=first))
        violations.append((d, sub, "process died (exit %d): %s" % (rc2, first[:600])))
    subs, samples, known, hashes = {}, [], [], set()
    for q in procs:
        if not os.path.exists(q["out"]):
            continue
        r = json.load(open(q["out"]))
        for name, st in r["subs"].items():
            a = subs.setdefault(name, dict(evaluations=0, nontrivial=0, discarded=0, classes={}, wall_s=0))
            for k in ("evaluations", "nontrivial", "discarded", "wall_s"):
                a[k] += st[k]
            for k, v in (st.get("classes") or {}).items():
                a["classes"][k] = a["classes"].get(k, 0) + v
        samples += r["samples"] or []
        known += r["known"] or []
        hb = open(q["out"] + ".hashes", "rb").read()
        hashes.update(struct.unpack("<%dQ" % (len(hb) // 8), hb))
        for f in r["failures"] or []:
            d = save(prop, f["sub"], dict(property=prop, area=q["area"], sub=f["sub"], kind="falsified", case=f["case"],
                                          message=f["message"]), f["failfile"])
            violations.append((d, f["sub"], f["message"]))
    listed = {}
    kf = os.path.join(HERE, "KNOWN_FINDINGS.json")
    if os.path.exists(kf):
        for x in json.load(open(kf))["findings"]:
            if x.get("status") == "open" and x["property"] == prop:
                listed[x["id"]] = x
    for k in known:
        kid, _, what = k.partition("\t")
        if kid in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[kid]["what"]))
        else:
            d = save(prop, "probe-" + kid, dict(property=prop, area=areas[0], sub="probe " + kid, kind="probe", message=what))
            violations.append((d, "probe " + kid, what))
    wall = time.time() - t0
    for a in subs.values():
        a["wall_s"] = round(a["wall_s"], 2)
    with open(ev, "w") as f:
        json.dump(dict(
            property=prop, tier=tier, seed=seed, level="exploration",
            coverage=dict(
                evaluations=sum(a["evaluations"] for a in subs.values()),
                distinct_nontrivial=len(hashes),
                rule=AREAS[prop]["rule"], samples=samples[:8], per_check=subs,
                shards=nshard, known_findings_seen=[k.partition("\t")[0] for k in known]),
            assumptions=AREAS[prop].get("assumptions", []),
            wall_s=round(wall, 2), violations=len(violations)), f, indent=1)
        f.write("\n")
    if violations:
        shown = set()
        for d, sub, msg in violations:
            if sub not in shown:
                shown.add(sub)
                print("%s / %s (%s):\n%s" % (prop, sub, d, msg[:3000]))
        for d, sub, msg in violations[:1]:
            print("VIOLATION property=%s replay=%s" % (prop, d))
        return 1
    if problems:
        print("no answer: " + "; ".join(problems))
        return 2
    print("%s %s ok: %d cases, %d distinct non-trivial, %.1f s" % (
        prop, tier, sum(a["evaluations"] for a in subs.values()), len(hashes), wall))
    return 0


def save(prop, sub, info, failfile=None):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    if failfile and os.path.exists(failfile):
        info["rapid"] = open(failfile).read()
    body = json.dumps(info, indent=1)
    path = os.path.join(d, "%s-%s-%s.json" % (prop, "".join(c if c.isalnum() else "_" for c in sub),
                                              hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def replay(prop, path):
    info = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vf-replay-", dir="/tmp")
    try:
        binary = build(info.get("area") or areas_of(prop)[0], work)
        scratch = os.path.join(work, "s")
        os.mkdir(scratch)
        out = os.path.join(work, "out.json")
        kw = {"HX_SUB": info["sub"]}
        seed, tier, scale = "1", "quick", "1"
        if "rapid" in info:
            ff = os.path.join(work, "case.fail")
            open(ff, "w").write(info["rapid"])
            kw["HX_FAILFILE"] = ff
        elif "env" in info:
            seed, tier, scale = info["env"]["HX_SEED"], info["env"]["VERIF_TIER"], info["env"]["HX_SCALE"]
            kw = {}
        elif info.get("kind") == "probe":
            kw = {"HX_PROBES": "1"}
        p = start(binary, run_env(prop, tier, seed, scale, out, scratch, **kw), os.path.join(work, "err"))
        rc = p.wait()
        if rc != 0 or not os.path.exists(out):
            print(tail(os.path.join(work, "err")))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        r = json.load(open(out))
        bad = r["failures"] or []
        if info.get("kind") == "probe":
            bad = [k for k in (r["known"] or []) if info["sub"].endswith(k.split("\t")[0])]
        for f in bad:
            print(f["message"] if isinstance(f, dict) else f)
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        print("does not fail")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "replay":
        return replay(a[1], a[2])
    if a[0] == "setup":
        # compile every area once so that the checks find a warm build cache
        work = tempfile.mkdtemp(prefix="vf-setup-", dir="/tmp")
        try:
            for area in sorted({y for x in AREAS for y in areas_of(x)}):
                build(area, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    if a[0] == "all":
        tier = a[1] if len(a) > 1 else "quick"
        worst = 0
        for prop in (a[2:] or sorted(AREAS)):
            worst = max(worst, check(prop, tier))
            sys.stdout.flush()
        return worst
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())

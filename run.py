#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> <quick|thorough>

Builds the store from /repo's working tree together with the harnesses the
property needs, lets sixteen workers explore a fixed number of generated cases
(a pure function of VERIF_SEED), aggregates their reports, writes
evidence/<property>.json and exits 0 (held) or 1 (VIOLATION line printed).
Any other exit status is an error of the check, not a verdict.

  run.py replay <harness> <case file> [n]    re-executes a saved case
"""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from suites import PROPS, HARNESSES  # noqa: E402

NW = 16  # explorers; more than cores, because cases also wait for the device
NB = 8   # compilers
CFLAGS = ["-w", "-std=gnu11", "-D_GNU_SOURCE", "-ggdb", "-pthread",
          "-DXXH_STATIC_LINKING_ONLY", "-DSPLINTERDB_PLATFORM_DIR=platform_linux",
          '-DGIT_VERSION="verif"',
          "-I" + REPO + "/include", "-I" + REPO + "/src",
          "-I" + REPO + "/src/platform_linux"]
VARIANTS = {
    "rel": ["-O2"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread"],
    # every basic block calls harness/noise.c, which perturbs the schedule
    "noise": ["-O2", "-fsanitize-coverage=trace-pc"],
}
LIBS = ["-lm", "-lpthread", "-laio", "-lxxhash"]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sources():
    return sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/platform_linux/*.c"))


def tree_hash():
    h = hashlib.sha256()
    fs = []
    for root in ("/src", "/include"):
        for d, _, names in os.walk(REPO + root):
            fs += [os.path.join(d, n) for n in names]
    fs += glob.glob(HERE + "/harness/*")
    for f in sorted(fs):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def run_parallel(cmds):
    procs, errs = [], []
    cmds = list(cmds)
    while cmds or procs:
        while cmds and len(procs) < NB:
            c = cmds.pop(0)
            procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = procs.pop(0)
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            errs.append(" ".join(c[-4:]) + "\n" + out[-2000:])
    return errs


def build(harnesses):
    """harnesses: set of names -> {name: binary}"""
    base = os.path.join(HERE, "build", tree_hash())
    os.makedirs(base, exist_ok=True)
    with open(base + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for v in sorted({HARNESSES[h].get("variant", "rel") for h in harnesses}):
            od = base + "/" + v
            os.makedirs(od, exist_ok=True)
            cmds = []
            for s in sources():
                o = od + "/" + os.path.basename(s)[:-2] + ".o"
                if not os.path.exists(o):
                    cmds.append(["gcc"] + CFLAGS + VARIANTS[v] + ["-c", s, "-o", o])
            # the big ones first
            cmds.sort(key=lambda c: -os.path.getsize(c[-3]))
            e = run_parallel(cmds)
            if e:
                raise BuildError(e[0])
        bins = {}
        for h in sorted(harnesses):
            d = HARNESSES[h]
            v = d.get("variant", "rel")
            out = base + "/" + h
            bins[h] = out
            if os.path.exists(out):
                continue
            objs = sorted(glob.glob(base + "/" + v + "/*.o"))
            srcs = [HERE + "/harness/" + s for s in ["pbt.c"] + d["src"]]
            err = None
            for extra in (["-DPBT_INTERNALS"], []):
                c = (["gcc"] + CFLAGS + VARIANTS[v] + extra + ["-I" + HERE + "/harness"] + d.get("cflags", [])
                     + srcs + objs + ["-o", out + ".tmp"] + d.get("ldflags", []) + LIBS)
                p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if p.returncode == 0:
                    err = None
                    break
                err = p.stdout.decode(errors="replace")[-3000:]
            if err:
                raise BuildError(h + ": " + err)
            os.rename(out + ".tmp", out)
    return bins


def clean_old_builds():
    """keep the disk usage bounded while developing"""
    ds = sorted(glob.glob(os.path.join(HERE, "build", "*")), key=os.path.getmtime)
    for d in ds[:-6]:
        if time.time() - os.path.getmtime(d) > 3600:
            shutil.rmtree(d, ignore_errors=True)


def scratch_root():
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 6 << 30:
            return tempfile.mkdtemp(prefix="vpbt-", dir="/dev/shm")
    except OSError:
        pass
    return tempfile.mkdtemp(prefix="vpbt-")


def explore(binary, suite, seed, ncases, tmax, thorough, outdir, scratch, nw=NW):
    procs = []
    for w in range(nw):
        d = "%s/w%d" % (scratch, w)
        os.makedirs(d, exist_ok=True)
        procs.append(subprocess.Popen(
            [binary, "explore", suite, str(seed), str(w), str(nw), str(ncases), str(tmax),
             "1" if thorough else "0", outdir, d],
            stdout=subprocess.PIPE, stderr=open("%s/err%d" % (scratch, w), "wb")))
    res = []
    for w, p in enumerate(procs):
        out = p.communicate()[0].decode(errors="replace")
        with open("%s/err%d" % (scratch, w), errors="replace") as fh:
            err = fh.read()
        if err.strip():
            log("[%s/%d] %s" % (suite, w, err.strip()[-1500:]))
        try:
            res.append(json.loads(out))
        except ValueError:
            raise RuntimeError("worker %d of %s gave no report (status %s)" % (w, suite, p.returncode))
    return res


def known_findings(prop):
    out = []
    with open(HERE + "/known_findings.txt") as fh:
        for line in fh:
            m = re.match(r"known: property=(\S+) harness=(\S+) replay=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    P = PROPS[prop]
    known = known_findings(prop)
    clean_old_builds()
    try:
        bins = build({s["harness"] for s in P["suites"]} | {k[0] for k in known})
    except BuildError as e:
        log("BUILD FAILED:", e)
        return 2
    log("build: %.1f s" % (time.time() - t0))
    outdir = HERE + "/replays"
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(HERE + "/evidence", exist_ok=True)
    scratch = scratch_root()
    violations, samples, per, rules = [], [], [], []
    evaluations = distinct = 0
    nocases = False
    try:
        for h, rep, what in known:
            env = dict(os.environ, PBT_KNOWN="1")
            p = subprocess.run([bins[h], "replay", os.path.join(HERE, rep), scratch, "1"],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            if p.returncode == 1:
                print("KNOWN-FINDING: property=%s %s" % (prop, what), flush=True)
        for s in P["suites"]:
            n = s["thorough"] if thorough else s["quick"]
            tmax = s.get("tmax_thorough", 3000) if thorough else s.get("tmax", 240)
            ts = time.time()
            rs = explore(bins[s["harness"]], s["suite"], seed, n, tmax, thorough, outdir, scratch,
                         s.get("workers", NW))
            tot = {k: sum(r[k] for r in rs) for k in
                   ("run", "nontrivial", "distinct", "discarded", "inconclusive", "unreproduced", "capped")}
            counts = {}
            for r in rs:
                for k, v in r["counts"].items():
                    counts[k] = counts.get(k, 0) + v
            evaluations += tot["run"] - tot["discarded"] - tot["inconclusive"]
            distinct += tot["distinct"]
            if tot["run"] == 0 or tot["nontrivial"] == 0:
                nocases = True
            for r in rs[:3]:
                samples += [s["suite"] + ": " + x[:700] for x in r["samples"][:1]]
            rules.append("%s: %s" % (s["suite"], rs[0]["rule"]))
            per.append(dict(suite=s["suite"], harness=s["harness"], what=s.get("what", ""),
                            observed={k: v for k, v in counts.items() if v}, requested=n,
                            wall_s=round(time.time() - ts, 1),
                            slowest_case_s=max(r["slowest_s"] for r in rs), **tot))
            log("%s/%s: %s in %.1f s" % (prop, s["suite"], tot, time.time() - ts))
            for r in rs:
                if r["violation"]:
                    violations.append(dict(suite=s["suite"], replay=r["replay"], message=r["message"][:600]))
            soft = s.get("soft", 3)
            if not any(r["violation"] for r in rs) and tot["unreproduced"] >= soft:
                r = [r for r in rs if r["unreproduced"]][0]
                violations.append(dict(suite=s["suite"], replay=r["soft_replay"],
                                       message="%d different cases failed intermittently, e.g. %s"
                                       % (tot["unreproduced"], r["unreproduced_message"][:500])))
            if violations:
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ev = dict(property=prop, tier=tier, seed=seed, level=P["level"],
              coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct,
                            rule="Cases are generated from VERIF_SEED by the named suites; non-trivial means -- " + " | ".join(rules),
                            samples=samples[:6], suites=per, violation_details=violations),
              wall_s=round(time.time() - t0, 1), violations=len(violations),
              assumptions=P.get("assumptions", []))
    with open("%s/evidence/%s.json" % (HERE, prop), "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for v in violations:
        print("%s: %s" % (v["suite"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]), flush=True)
    if violations:
        return 1
    if nocases:
        log("no non-trivial case was executed: no verdict")
        return 2
    print("%s held on %d cases (%d distinct non-trivial), %.0f s" % (prop, evaluations, distinct, time.time() - t0))
    return 0


def main():
    if len(sys.argv) >= 4 and sys.argv[1] == "replay":
        b = build({sys.argv[2]})[sys.argv[2]]
        d = scratch_root()
        try:
            return subprocess.call([b, "replay", sys.argv[3], d] + sys.argv[4:])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        build(set(HARNESSES))
        return 0
    if len(sys.argv) != 3 or sys.argv[1] not in PROPS:
        log(__doc__)
        return 2
    return check(sys.argv[1], sys.argv[2])


sys.exit(main())

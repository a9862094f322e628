#!/usr/bin/env python3
"""Decide one property: build the harness against /repo's working tree, run it
in parallel shards, merge what they covered into evidence/<id>.json.

usage: check.py ID [quick|thorough]      exit 0 held, 1 violated, 2 error
       check.py --replay FILE            run a replay file again
       check.py --setup                  warm the build cache
"""
import hashlib, json, os, re, resource, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
REGRESS = os.path.join(HERE, "regress")
RACE = {"C19"}
SHARDS = 8
LIMIT = {"quick": 780, "thorough": 5400}
# seconds after which a shard draws no new cases; a usual run takes far less
SOFT = {"quick": 480, "thorough": 4200}
# how many times the number of cases that the harness has by default
SCALE = {"quick": {"C01": 16, "C02": 24, "C03": 48, "C04": 60, "C05": 16, "C06": 24, "C07": 60, "C08": 30, "C09": 25, "C10": 20,
                   "C11": 10, "C12": 8, "C13": 6, "C14": 12, "C15": 24, "C16": 20, "C17": 32, "C18": 12, "C19": 3, "C20": 15},
         "thorough": {"C01": 10, "C02": 12, "C03": 12, "C04": 12, "C05": 8, "C06": 10, "C07": 12, "C08": 10, "C09": 20, "C10": 8}}
SCALE_DEFAULT = {"quick": 8, "thorough": 3}
# Seconds of coverage-guided search, over all parts of a property, in the thorough
# tier. Not for what is measured (C11) or races (C19).
FUZZ = {"C11": 0, "C19": 0}
FUZZ_DEFAULT = 600
GOROOT = "/opt/veriftools/go1.27.3"

ASSUME = [
    "a violation confined to inputs the generators reach with negligible probability is not found",
    "the reference model and serialiser in harness/model.go describe git's object format",
    "go-ipld-prime, go-cid, go-multihash and the Go standard library behave as documented",
]


def env():
    e = dict(os.environ)
    if os.path.isdir(GOROOT):
        e["PATH"] = GOROOT + "/bin:" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=readonly", GOWORK="off", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    return e


def die(msg):
    print("ERROR:", msg)
    sys.exit(2)


def build(dst, race=False):
    cmd = ["go", "build", "-trimpath", "-o", dst]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["."], cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        die("the harness does not build against /repo:\n" + p.stdout[-4000:])


def limits(race):
    def f():
        os.setsid()
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def start(binary, prop, tier, seed, shard, out, race, extra=()):
    os.makedirs(out, exist_ok=True)
    e = env()
    e["GOMAXPROCS"] = "4" if race else "2"
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    e["GOTRACEBACK"] = "all"
    e["TMPDIR"] = out
    cmd = [binary, "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", str(shard), "-out", out,
           "-scale", str(SCALE[tier].get(prop, SCALE_DEFAULT[tier])), "-known", KNOWN, "-regress", REGRESS, "-limit", str(SOFT[tier]), *extra]
    return subprocess.Popen(cmd, cwd=out, env=e, stdout=open(out + "/stdout", "wb"), stderr=open(out + "/stderr", "wb"),
                            stdin=subprocess.DEVNULL, preexec_fn=limits(race))


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            data = f.read()
    except OSError:
        return ""
    return data[:n].decode("utf-8", "replace")


def crashed(rc, err):
    """A crash the Go runtime reports by itself, that recover cannot catch."""
    return rc in (2, 66) and ("fatal error:" in err or "WARNING: DATA RACE" in err or "\npanic:" in err or err.startswith("panic:")) \
        and "go-ipld-git" in err


def write_replay(failure):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    raw = json.dumps(failure, indent=1)
    path = os.path.join(d, "%s-%s.json" % (failure["property"], hashlib.sha1(raw.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(raw)
    return path


def fuzz(prop, binary, work, seconds):
    """Search the cases of a property's parts, guided by the coverage of the code
    under test, for so many seconds. Gives what was covered and failures."""
    fz = os.path.join(work, "fuzz")
    p = subprocess.run(["go", "test", "-c", "-trimpath", "-fuzz=FuzzPart", "-o", fz, "."], cwd=HARNESS, env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        die("the fuzz target does not build:\n" + p.stdout[-4000:])
    names = json.loads(subprocess.run([binary, "-parts", prop], stdout=subprocess.PIPE, check=True, env=env()).stdout)
    covered, failures = {}, []
    for k, name in enumerate(names):
        d = os.path.join(work, "fuzz%d" % k)
        os.makedirs(d)
        e = dict(env(), VERIF_FUZZ_PART=name, VERIF_FUZZ_OUT=d, GOTRACEBACK="all", TMPDIR=d)

        def go(args, limit, **more):
            q = subprocess.Popen([fz] + args, cwd=d, env=dict(e, **more), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                 stderr=subprocess.STDOUT, preexec_fn=limits(True))
            try:
                out = q.communicate(timeout=limit)[0]
            except subprocess.TimeoutExpired:
                os.killpg(q.pid, 9)
                out = q.communicate()[0]
            return q.returncode, out.decode("utf-8", "replace")

        t = max(30, seconds // len(names))
        rc, out = go(["-test.run=^$", "-test.fuzz=FuzzPart", "-test.fuzzcachedir=" + d + "/cache", "-test.fuzztime=%ds" % t,
                      "-test.parallel=%d" % SHARDS, "-test.fuzzminimizetime=1x"], t + 120)
        covered[name] = {"executions": max([int(x) for x in re.findall(r"execs: (\d+)", out)] or [0]),
                         "inputs_with_new_coverage": max([int(x) for x in re.findall(r"new interesting: (\d+)", out)] or [0])}
        if rc == 0:
            continue
        cases = sorted((x for x in os.listdir(d) if x.endswith(".bytes")), key=lambda x: os.path.getsize(os.path.join(d, x)))
        if cases:
            case = os.path.join(d, cases[0])
            go(["-test.run=TestShrink"], 200, VERIF_FUZZ_INPUT=case)
            case = case[:-6] + ".json"
        else:  # the process ended: run what it ended with again, writing down the case
            bad = os.path.join(d, "testdata/fuzz/FuzzPart")
            case = os.path.join(d, "trace.json")
            for x in os.listdir(bad) if os.path.isdir(bad) else []:
                go(["-test.run=FuzzPart/" + x], 200, VERIF_FUZZ_TRACE=case)
        # It counts when it fails without instrumentation, too.
        if os.path.exists(case):
            try:
                q = subprocess.run([binary, "-replay", case], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300,
                                   preexec_fn=limits(False))
                again = q.returncode not in (0, 2) or b"fatal error:" in q.stdout or b"panic:" in q.stdout
            except subprocess.TimeoutExpired:
                again = True
            if again:
                failures.append(json.load(open(case)))
                continue
        covered[name]["not_reproduced"] = out[-600:]
    return covered, failures


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    race = prop in RACE
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    procs = []
    try:
        binary = os.path.join(work, "harness")
        build(binary, race)
        rules = json.loads(subprocess.run([binary, "-list"], stdout=subprocess.PIPE, check=True, env=env()).stdout)
        outs = [os.path.join(work, "s%d" % i) for i in range(SHARDS)]
        procs = [start(binary, prop, tier, seed, i, o, race) for i, o in enumerate(outs)]
        deadline = t0 + LIMIT[tier]
        failures, errors = [], []
        for i, p in enumerate(list(procs)):
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                errors.append("shard %d did not finish within the time limit" % i)
                continue
            res = os.path.join(outs[i], "result.json")
            if rc in (0, 1) and os.path.exists(res):
                continue
            err = tail(outs[i] + "/stderr")
            if not crashed(rc, err):
                errors.append("shard %d ended with %d: %s" % (i, rc, err[:1500]))
                continue
            if failures:
                continue
            # Run the shard again, writing down each case before it is run.
            trace = os.path.join(work, "trace%d.json" % i)
            again = start(binary, prop, tier, seed, i, outs[i] + "t", race, ["-trace", trace])
            procs.append(again)
            try:
                rc2 = again.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                rc2 = None
            if os.path.exists(trace):
                f = json.load(open(trace))
            else:
                f = {"property": prop, "part": "", "seed": seed, "case": None}
            note = "" if rc2 == rc else " (not on a second run, which ended with %s; the case is the last one of that run)" % rc2
            f["error"] = "the process crashed%s:\n%s" % (note, err)
            failures.append(f)
        fuzzed = {}
        seconds = FUZZ.get(prop, FUZZ_DEFAULT) if tier == "thorough" else 0
        if seconds and not failures and not errors and not any(p.returncode for p in procs):
            fuzzed, found = fuzz(prop, binary, work, seconds)
            failures += found
        merged = {"evaluations": 0, "per_part": {}, "classes": {}}
        keys, samples = set(), []
        for o in outs:
            path = os.path.join(o, "result.json")
            if not os.path.exists(path):
                continue
            r = json.load(open(path))
            merged["evaluations"] += r["evaluations"]
            for k in ("per_part", "classes"):
                for a, b in (r[k] or {}).items():
                    merged[k][a] = merged[k].get(a, 0) + b
            if r.get("failure"):
                failures.append(r["failure"])
            for s in r["samples"] or []:
                if sum(1 for x in samples if x["part"] == s["part"]) < 3:
                    samples.append(s)
            data = open(os.path.join(o, "keys.bin"), "rb").read()
            keys.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        known = tail(outs[0] + "/known.txt", 100000)
        failures.sort(key=lambda f: len(json.dumps(f.get("case"))))
        cov = {
            "evaluations": merged["evaluations"],
            "distinct_nontrivial": len(keys),
            "rule": rules.get(prop, ""),
            "samples": samples[:12],
            "per_part": dict(sorted(merged["per_part"].items())),
            "classes": dict(sorted(merged["classes"].items())),
            "shards": SHARDS,
            "known_findings": known.count("KNOWN-FINDING"),
        }
        if fuzzed:
            cov["coverage_guided"] = fuzzed
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": ASSUME,
              "wall_s": round(time.time() - t0, 2), "violations": len(failures)}
        os.makedirs(EVID, exist_ok=True)
        tmp = os.path.join(EVID, ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVID, prop + ".json"))
        sys.stdout.write(known)
        if failures:
            f = failures[0]
            f["property"] = prop
            path = write_replay(f)
            print(f.get("error", "")[:3000])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        if errors:
            die("\n".join(errors))
        print("%s: held on %d cases (%d distinct non-trivial) in %.1f s" % (prop, merged["evaluations"], len(keys), time.time() - t0))
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        prop = json.load(open(path))["property"]
        binary = os.path.join(work, "harness")
        build(binary, prop in RACE)
        e = env()
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        rc = subprocess.run([binary, "-replay", os.path.abspath(path)], env=e).returncode
        if rc in (1, 66) or rc not in (0, 2):
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main(argv):
    if argv[:1] == ["--setup"]:
        work = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(os.path.join(work, "h"))
            build(os.path.join(work, "hr"), True)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if not argv or not re.fullmatch(r"C\d\d", argv[0]):
        print(__doc__)
        return 2
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        die("no such tier: " + tier)
    return run(argv[0], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))

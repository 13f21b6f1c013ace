"""C23: one workload, built with each of the eight feature sets, logs every
result; this is the offline checker that replays the logs against each other."""
import os, shutil, struct, subprocess, threading, time

FEATS = ["std,rand,approx", "", "std", "rand", "approx", "std,rand", "std,approx", "rand,approx"]


def bits(x):
    return struct.unpack("<d", struct.pack("<Q", int(x, 16)))[0]


def lex(b, single):
    """order-preserving integer image of a float"""
    if single:
        b = struct.unpack("<i", struct.pack("<f", b))[0]
        return b if b >= 0 else -2**31 - b
    b = struct.unpack("<q", struct.pack("<d", b))[0]
    return b if b >= 0 else -2**63 - b


def agree(kind, a, b):
    if kind[0] == "E":
        return a == b
    va, vb = a.split(",") if a else [], b.split(",") if b else []
    if len(va) != len(vb):
        return False
    for p, q in zip(va, vb):
        if p == q:
            continue
        x, y = bits(p), bits(q)
        if x != x or y != y:
            if x != x and y != y:
                continue
            return False
        if x == y:
            continue
        if abs(x) == float("inf") or abs(y) == float("inf"):
            # one step beyond the largest finite value
            m = max(min(abs(x), abs(y)), 0.0)
            if x * y > 0 and kind[0] == "U" and m > (3.4028e38 if kind[1] == "s" else 1.797e308):
                continue
            return False
        if kind[0] == "U":
            tiny = 1e-44 if kind[1] == "s" else 1e-322
            if abs(lex(x, kind[1] == "s") - lex(y, kind[1] == "s")) > int(kind[3:]) and abs(x - y) > tiny:
                return False
        elif abs(x - y) > bits(kind[1:]):
            return False
    return True


def load(path):
    """section -> list of (key, kind, values)"""
    out = {}
    for line in open(path):
        out.setdefault(line[:line.index("#")], []).append(line)
    return out


def compare(base, other, name):
    """first deviations, number of compared events, and of inexact ones"""
    bad, n, inexact = [], 0, 0
    for sec in sorted(base):
        if sec not in other:
            if not sec.startswith(("rand_", "approx_")):
                bad.append((sec, -1, "no event in the build", name))
            continue
        x, y = base[sec], other[sec]
        if len(x) != len(y):
            bad.append((sec, -1, "different number of events", "%d and %d in %s" % (len(x), len(y), name)))
        for p, q in zip(x, y):
            n += 1
            if p == q:
                continue
            ka, na, oa, ta, va = p.rstrip("\n").split("\t")
            kb, nb, ob, tb, vb = q.rstrip("\n").split("\t")
            same = (ka, na, oa) == (kb, nb, ob)
            # the scale in a norm-wise kind is a result as well
            if same and ta[0] == tb[0] and agree(ta, va, vb):
                inexact += 1
                continue
            idx = int(ka.split("#")[1])
            bad.append((sec, idx, oa, "event %s %s of %s: %s with all features, %s in %s (kind %s)" % (
                na, oa, ka, show(va, ta), show(vb, tb), name, ta)))
            if len(bad) > 20:
                return bad, n, inexact
    return bad, n, inexact


def show(v, kind):
    if kind[0] == "E":
        return v
    return ",".join(repr(bits(x)) for x in v.split(",")) if v else "nothing"


def decide(rt, tier, seed):
    t0 = time.time()
    tmp = os.path.join(rt.WORK, "c23")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    jobs = [rt.job("dev", feats=f, name="features(%s)" % (f or "none")) for f in FEATS]
    results, logs, crate = {}, {}, {}
    budget = 600 if tier == "quick" else 7200

    def cargo(cmd, cwd, target):
        e = rt.tool_env()
        e["CARGO_TARGET_DIR"] = target
        e["CARGO_PROFILE_DEV_DEBUG"] = "0"
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
        return r.returncode == 0, r.stdout

    def one(k, j):
        n = j["name"]
        tdir = os.path.join(rt.HARNESS, "target-f%d" % k)
        ok, log = cargo(["cargo", "build", "--offline", "--bin", "c23"] + rt.feat_args(j["feats"]), rt.HARNESS, tdir)
        if not ok:
            results[n] = dict(verdict="build", err=log[-4000:], report=None, wall=0, rc=None)
            return
        path = os.path.join(tmp, "c23-f%d" % k)
        shutil.copy2(os.path.join(tdir, "debug", "c23"), path)
        logs[n] = os.path.join(tmp, "log%d" % k)
        for attempt in range(2):
            r = execute(path, logs[n], n)
            results[n] = r
            if r["verdict"] == "ok":
                return
        results[n]["twice"] = True

    def execute(path, log, n):
        e = rt.tool_env()
        out = log + ".json"
        e.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_OUT=out, VERIF_LOG=log, VERIF_THREADS="1")
        if "VERIF_MULT" not in e:
            e["VERIF_MULT"] = "8"
        t = time.time()
        try:
            p = rt.spawn([path], env=e, timeout=budget)
        except subprocess.TimeoutExpired:
            return dict(verdict="timeout", rc=None, err="time-out", report=None, wall=time.time() - t)
        import json
        rep = json.load(open(out)) if os.path.exists(out) else None
        v = "ok" if p.returncode == 0 and rep else "violated" if rep and rep["violations"] else "abnormal"
        return dict(verdict=v, rc=p.returncode, err=p.stderr[-3000:], report=rep, wall=time.time() - t)

    def bare():
        d = os.path.join(rt.ROOT, "featcrate")
        for f in FEATS:
            crate[f] = cargo(["cargo", "check", "--offline"] + rt.feat_args(f), d, os.path.join(d, "target"))

    ts = [threading.Thread(target=one, args=(k, j)) for k, j in enumerate(jobs)] + [threading.Thread(target=bare)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    violations, problems = [], []
    viol = lambda j, rule, detail, sec="", idx=-1: violations.append(
        (j, dict(section=sec, index=idx, rule=rule, detail=detail)))
    some = any(ok for ok, _ in crate.values())
    for f, (ok, log) in crate.items():
        if ok:
            continue
        j = jobs[FEATS.index(f)]
        if some and "could not compile `vecmat`" in log:
            viol(j, "does not build", "vecmat alone with features [%s]:\n%s" % (f, log[-2500:]))
        else:
            problems.append("vecmat alone with features [%s]:\n%s" % (f, log[-2500:]))
    first = jobs[0]["name"]
    base_ok = results[first]["verdict"] == "ok"
    for j in jobs:
        r = results[j["name"]]
        if r["verdict"] == "build":
            if base_ok and "could not compile" in r["err"]:
                viol(j, "does not build", "the workload with features [%s]:\n%s" % (j["feats"], r["err"][-2500:]))
            else:
                problems.append("%s: build failed\n%s" % (j["name"], r["err"]))
        elif r["verdict"] == "violated":
            for v in r["report"]["violations"]:
                violations.append((j, v))
        elif r["verdict"] == "abnormal" and r.get("twice") and base_ok and (r["rc"] or 0) < 0:
            viol(j, "crash with signal %d" % -r["rc"], r["err"])
        elif r["verdict"] != "ok":
            problems.append("%s: %s (status %s)\n%s" % (j["name"], r["verdict"], r["rc"], r["err"]))
    extra = dict(feature_sets=len(FEATS), builds_alone={f or "none": ok for f, (ok, _) in crate.items()})
    if base_ok:
        base = load(logs[first])
        total = sum(map(len, base.values()))
        if not total:
            problems.append("no event was recorded")
        cmp_n = {}
        for j in jobs[1:]:
            if results[j["name"]]["verdict"] != "ok":
                continue
            bad, n, inexact = compare(base, load(logs[j["name"]]), j["name"])
            cmp_n[j["name"]] = dict(events_compared=n, equal_within_tolerance_only=inexact, deviations=len(bad))
            for sec, idx, rule, detail in bad:
                viol(j, rule, detail, sec, idx)
        extra.update(events_recorded=total, comparisons=cmp_n)
    rt.write_evidence("C23", tier, seed, jobs, results, len(violations), t0, extra)
    shutil.rmtree(tmp, ignore_errors=True)
    return rt.conclude("C23", tier, seed, violations, problems)

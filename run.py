#!/usr/bin/env python3
"""run.py ID quick|thorough   check one property
   run.py replay FILE         run a saved counterexample again
   run.py setup               compile every variant"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core
from checks import ASSUMPTIONS, CHECKS, RULES


def make_runner(bins, variant, profile, env, np):
    env = dict(env)
    if variant in core.PYVARIANTS:
        env["QDD_PKG"] = os.path.dirname(os.path.dirname(bins[variant]))
    return core.Runner(bins[variant], variant, profile, env, np)


class Fuzz:
    """One libFuzzer process. Its failures are turned into engine cases, which replay and shrink like all others."""
    weight = 1

    def __init__(self, bins, index):
        self.bins, self.index = bins, index
        self.base = core.Runner(bins["fuzz"], "fuzz", "fuzz")

    def run(self, seed, secs, cases):
        d = tempfile.mkdtemp(prefix="fuzz", dir=core.scratch())
        try:
            cmd = [self.bins["fuzz"], "-seed=%d" % (seed % 2**31 + 1), "-runs=%d" % cases, "-max_total_time=%d" % secs, "-max_len=%d" % (200 + 150 * self.index),
                   "-artifact_prefix=%s/a-" % d, "-print_final_stats=1", "-rss_limit_mb=5000", "-timeout=60", "-len_control=30", "-use_value_profile=%d" % (self.index % 2), d]
            to = False
            try:
                r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=self.base.env, preexec_fn=core.limits(0), timeout=secs + 240, cwd=d)
                err, rc = r.stderr.decode(errors="replace"), r.returncode
            except subprocess.TimeoutExpired as e:
                err, rc, to = (e.stderr or b"").decode(errors="replace"), 0, True
            arts = [os.path.join(d, f) for f in os.listdir(d) if f.startswith("a-")]
            if rc == 0 and not arts and not to:
                g = lambda n: int((re.findall(n + r":\s*(\d+)", err) or ["0"])[-1])
                feats = [int(x) for x in re.findall(r" ft: (\d+)", err)]
                cov = [int(x) for x in re.findall(r" cov: (\d+)", err)]
                inputs = sorted(f for f in os.listdir(d))
                sample = [self.text(os.path.join(d, f)) for f in inputs[-2:]]
                return core.Result("ok", data={"cases": g("number_of_executed_units"), "nontrivial": g("new_units_added"), "max_features": max(feats or [0]),
                                               "max_edges": max(cov or [0]), "samples": [s[:1200] for s in sample if s]})
            res = core.parse_report([], rc if not to else 0, err, to)
            m = re.search(r"^FAIL (.*)", err, re.M)
            if m:
                res = core.Result("fail", 0, m.group(1))
            res.text = self.text(arts[0]) if arts else ""
            res.raw = open(arts[0], "rb").read().hex() if arts else ""
            return res
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def text(self, f):
        env = dict(self.base.env, ENGINE_PRINT_CASE="1")
        r = subprocess.run([self.bins["fuzz"], f], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, timeout=120, cwd=core.scratch())
        ls = []
        for l in r.stderr.decode(errors="replace").split("\n"):
            if re.match(r"^(n|wn|[a-z*0-9]{1,4}) ?[-0-9A-Za-z. +]*$", l) and not l.startswith(("INFO", "FAIL")):
                ls.append(l)
        while ls and not re.match(r"^w?n \d", ls[0]):
            ls.pop(0)
        return "\n".join(ls)

    def triage(self, prop, res):
        runner = make_runner(self.bins, "asan", "hist", {}, 0)
        if res.text:
            cases = [("case 0", res.text.split("\n"))]
            r = runner.play(cases, 120)
            if r.bad:
                cases, r = core.shrink(runner, cases, r, 120)
                return core.save_replay(prop, runner, cases, r), r
        # the input alone, for the fuzzer binary
        d = tempfile.mkdtemp(prefix="fz", dir=core.scratch())
        try:
            f = os.path.join(d, "in")
            open(f, "wb").write(bytes.fromhex(res.raw))
            n = 0
            for _ in range(3):
                try:
                    n += subprocess.run([self.bins["fuzz"], "-timeout=60", f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=self.base.env, timeout=150, cwd=d).returncode != 0
                except subprocess.TimeoutExpired:
                    n += 1
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if n == 0 and res.status == "hang":
            return None, res
        return core.save_replay(prop, self.base, [("case 0", ["hex " + res.raw])], res, "# input of the fuzzer; repeated alone %d of 3 times\n" % n), res


def known(prop):
    p = os.path.join(core.VERIF, "known_findings.json")
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop] if os.path.exists(p) else []


def replay_file(path):
    t = open(path).read()
    m = re.search(r"^# variant=(\S+) np=(\d+) env=(.*)$", t, re.M)
    variant, np, env = m.group(1), int(m.group(2)), json.loads(m.group(3))
    env.pop("QDD_PKG", None)
    bins = core.build([variant])
    if variant == "fuzz":
        f = tempfile.mktemp(dir=core.scratch())
        open(f, "wb").write(bytes.fromhex(re.search(r"^hex (\S*)", t, re.M).group(1)))
        rc = subprocess.run([bins["fuzz"], f], stdout=subprocess.DEVNULL, env=core.Runner(bins["fuzz"], "fuzz", "fuzz").env).returncode
        os.unlink(f)
        return core.Result("ok" if rc == 0 else "crash", msg="status %d" % rc)
    m = re.search(r"^# the whole run: profile=(\S+) seed=(-?\d+) cases=(\d+)", t, re.M)
    r = make_runner(bins, variant, m.group(1) if m else "", env, np)
    if m:
        return r.run(int(m.group(2)), 3600, int(m.group(3)))
    res = None
    for _ in range(8 if variant.startswith("mt") else 1):
        res = r.play(core.parse_session(t), 300)
        if res.bad:
            break
    return res


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = CHECKS[prop]
    variants = sorted({j.variant for j in jobs} | ({"asan"} if any(j.variant == "fuzz" for j in jobs) else set()))
    findings = known(prop)
    variants = sorted(set(variants) | {f["variant"] for f in findings})
    bins = core.build(variants)
    secs = 45 if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_SECS", "1500"))
    work = []
    for ji, j in enumerate(jobs):
        for w in range(j.workers):
            s = (seed * 1000 + ji * 50 + w) * 2 + (tier == "thorough")
            r = Fuzz(bins, w) if j.variant == "fuzz" else make_runner(bins, j.variant, j.profile, j.env, j.np)
            work.append((j, r, s, j.cases if tier == "quick" else 10**9))
    work.sort(key=lambda x: -x[1].weight)
    free = [core.NPROC]
    cv = threading.Condition()
    stop = threading.Event()
    results = []

    def one(j, r, s, cases):
        w = min(r.weight, core.NPROC)
        with cv:
            while free[0] < w:
                cv.wait()
            free[0] -= w
        try:
            t1 = time.time()
            res = None if stop.is_set() else r.run(s, secs, cases)
            if res is not None:
                res.wall = time.time() - t1
            results.append((j, r, s, res))
            if res is not None and res.bad:
                stop.set()  # workers under way finish; waiting ones do not start
        except Exception as e:
            results.append((j, r, s, core.Result("error", msg=repr(e))))
        finally:
            with cv:
                free[0] += w
                cv.notify_all()
    ths = [threading.Thread(target=one, args=x) for x in work]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    total, viol, error = {}, [], None
    per = []
    for j, r, s, res in results:
        if res is None:
            continue
        if res.status in ("error", "invalid"):
            error = "%s/%s seed %d: %s %s" % (j.variant, j.profile, s, res.status, res.msg or res.err)
        if res.data:
            core.merge(total, res.data)
            per.append({"variant": j.variant, "profile": j.profile, "processes": j.np or 1, "env": j.env, "seed": s, "cases": res.data.get("cases", 0), "s": round(res.wall, 1)})
    deadline = max(time.time() + 150, t0 + 420) if tier == "quick" else time.time() + 900
    for j, r, s, res in sorted(results, key=lambda x: x[2]):
        if res is None or not res.bad or viol:
            continue
        sys.stderr.write("%s/%s seed %d case %d: %s %s\n" % (j.variant, j.profile, s, res.case, res.status, res.msg))
        if res.status == "hang":
            sys.stderr.write(res.err[-3000:] + "\n")
        if isinstance(r, Fuzz):
            path, _ = r.triage(prop, res)
        else:
            path = core.triage(prop, r, s, secs, res, deadline)
        if path:
            viol.append(path)
        else:
            sys.stderr.write("not reproduced; ignored\n")
    if not total.get("samples") and not viol:
        j, r, s, _ = work[0]
        if not isinstance(r, Fuzz):
            total["samples"] = [core.session_text(r.gen(s, 1))[:1500]]
    kf = []
    for f in findings:
        res = replay_file(os.path.join(core.VERIF, f["replay"]))
        if res.status == "fail" and re.search(f["expect"], res.msg):
            kf.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        elif res.bad:
            p = os.path.join(core.VERIF, f["replay"])
            sys.stderr.write("known finding fails differently: %s %s\n" % (res.status, res.msg))
            viol.append(p)
    profs = []
    for j in jobs:
        if j.profile not in profs:
            profs.append(j.profile)
    total.setdefault("samples", [])
    cov = {"evaluations": total.pop("cases", 0), "distinct_nontrivial": total.pop("nontrivial", 0),
           "rule": "; ".join("[%s] %s" % (p, RULES[p]) for p in profs), "samples": total.pop("samples")[:6]}
    cov.update(total)
    cov["workers"] = per
    cov["known_findings_seen"] = len(kf)
    ass = []
    if any(j.variant not in core.PYVARIANTS for j in jobs):
        ass += ASSUMPTIONS["engine"]
    if any(j.variant in core.PYVARIANTS for j in jobs):
        ass += ASSUMPTIONS["py"]
    core.evidence(prop, tier, seed, cov, time.time() - t0, len(viol), ass)
    for l in kf:
        print(l)
    for p in viol:
        print("VIOLATION property=%s replay=%s" % (prop, p))
    print("%s %s: %d cases, %d non-trivial, %.0f s, %d violations" % (prop, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, len(viol)))
    if viol:
        return 1
    if error:
        sys.stderr.write("ERROR: %s\n" % error)
        return 2
    return 0


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        core.build(list(core.VARIANTS) + list(core.PYVARIANTS))
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        r = replay_file(sys.argv[2])
        print(r.status, r.msg)
        return 1 if r.bad else 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return check(sys.argv[1], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.CheckError as e:
        sys.stderr.write("ERROR: %s\n" % e)
        sys.exit(2)

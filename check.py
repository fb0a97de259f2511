#!/usr/bin/env python3
"""Driver of the property-based checks.

  check.py run ID [--tier quick|thorough] [--seed N]     decide property ID (exit 0 held / 1 VIOLATION)
  check.py replay ID FILE                                re-run a recorded failing case
  check.py build ID                                      only build the harnesses
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build as B
from registry import PROPS

VERIF = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:symbolize=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:malloc_context_size=5",
           UBSAN_OPTIONS="symbolize=0:print_stacktrace=0:exitcode=98",
           TSAN_OPTIONS="exitcode=97:halt_on_error=1:symbolize=0",
           LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
WORKERS = 8


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) component=(\S+) probe=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append(dict(component=m.group(2), probe=m.group(3), text=m.group(4)))
    return out


def run_json(cmd, timeout, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 3, None
    try:
        return p.returncode, json.loads(o.decode("utf8", "replace"))
    except ValueError:
        sys.stderr.write(e.decode("utf8", "replace")[-2000:])
        return p.returncode, None


class CppComponent:
    def __init__(self, spec, tier):
        self.s, self.tier = spec, tier
        self.name = spec["name"]

    def target(self):
        return dict(name=self.name, variant=self.s["variant"], sources=[os.path.join(VERIF, "harness", x) for x in self.s["src"]], client=self.s.get("client", False),
                    flags=self.s.get("flags", ""), ldflags=self.s.get("ldflags", ""))

    def exe(self):
        return os.path.join(B.BUILD, self.s["variant"], self.name)

    def timeout_args(self):
        return ["--case-timeout", str(self.s.get("case_timeout", 30))]

    def probe(self, name, scratch):
        rc, js = run_json([self.exe(), "probe", name, "--scratch", scratch] + self.timeout_args(), 120, scratch)
        return rc, js

    def run(self, seed, scratch, first0=0):
        """returns (stats, failure) ; failure = dict(tape=path, outcome=...)"""
        count, secs = self.s[self.tier]
        w = self.s.get("workers", WORKERS)
        procs = []
        for i in range(w):
            n = (count - i + w - 1) // w
            sc = os.path.join(scratch, "w%d" % i)
            os.makedirs(sc, exist_ok=True)
            cmd = [self.exe(), "run", "--seed", str(seed), "--first", str(first0 + i), "--stride", str(w), "--count", str(n), "--time", str(secs),
                   "--out", os.path.join(sc, "out.json"), "--tape", os.path.join(sc, "fail.tape"), "--scratch", sc] + self.timeout_args()
            procs.append((sc, subprocess.Popen(cmd, env=ENV, cwd=sc, stdout=subprocess.DEVNULL, stderr=open(os.path.join(sc, "err"), "w"), start_new_session=True)))
        deadline = time.time() + secs + 90
        res, failures, hashes = dict(evaluations=0, discards=0, broken=0, labels={}, samples=[], timed_out=0), [], set()
        for sc, p in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            try:
                js = json.load(open(os.path.join(sc, "out.json")))
            except (OSError, ValueError):
                res["broken"] += 1
                res["labels"]["worker-broken"] = res["labels"].get("worker-broken", 0) + 1
                sys.stderr.write(open(os.path.join(sc, "err")).read()[-1000:])
                continue
            for k in ("evaluations", "discards", "broken"):
                res[k] += js[k]
            res["timed_out"] += 1 if js["timed_out"] else 0
            hashes.update(js["hashes"])
            for k, v in js["labels"].items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            res["samples"] += js["samples"]
            if js["failure"]:
                failures.append(dict(tape=os.path.join(sc, "fail.tape"), outcome=js["failure"]))
        res["distinct"] = len(hashes)
        res["samples"] = res["samples"][:4]
        res["labels"].pop("failed-at-index", None)
        return res, failures

    def confirm(self, f, scratch):
        """shrinks and confirms; returns (path of tape in scratch, outcome) or None"""
        nondet = self.s.get("nondet", False)
        tries, need = (self.s.get("confirm_tries", 30), 1) if nondet else (3, 3)
        if f["outcome"]["status"] == "hang":
            tries, need = 2, 2

        def ok(tape):
            n, last = 0, None
            for i in range(tries):
                rc, js = run_json([self.exe(), "replay", tape, "--scratch", scratch] + self.timeout_args(), 120, scratch)
                if rc == 1 and js:
                    n += 1
                    last = js
                if n >= need:
                    return last
                if not nondet and rc != 1:
                    return None
            return None
        first = ok(f["tape"])
        if not first:
            return None
        out = os.path.join(scratch, "shrunk.tape")
        if not nondet:
            run_json([self.exe(), "shrink", f["tape"], out, "--time", str(self.s.get("shrink_time", 25)), "--scratch", scratch] + self.timeout_args(), 150, scratch)
            if os.path.exists(out):
                o = ok(out)
                if o:
                    return out, o
        return f["tape"], first


def component(spec, tier):
    if spec.get("kind") == "py":
        import importlib
        sys.path.insert(0, os.path.join(VERIF, "pyh"))
        return importlib.import_module(spec["module"]).Component(spec, tier)
    return CppComponent(spec, tier)


def main():
    a = sys.argv[1:]
    if a[:1] == ["selfcheck"]:      # setup: the tools every check needs are there
        for t in (B.CC, B.CXX, B.GCC, B.GXX):
            if not os.path.exists(t):
                print("missing " + t)
                return 1
        return 0 if shutil.which("ninja") and os.path.isdir(B.REPO) else 1
    if len(a) < 2:
        print(__doc__)
        return 2
    mode, pid = a[0], a[1]
    opt = {a[i][2:]: a[i + 1] for i in range(2, len(a) - 1) if a[i].startswith("--")}
    tier = opt.get("tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1")))
    prop = PROPS[pid]
    t0 = time.time()
    only = opt.get("component")
    comps = [component(s, tier) for s in prop["components"] if not only or s["name"] == only]
    def targets_of(cs):
        t = [c.target() for c in cs if c.target()]
        for c in cs:
            t += getattr(c, "extra_targets", lambda: [])()
        return t
    targets = targets_of(comps)
    ok, log, _ = B.build(targets) if targets else (True, "", [])
    unbuilt = []
    if not ok:     # decide with the components that can be built, if any
        sys.stderr.write(log[-6000:])
        good = []
        for c in comps:
            tt = targets_of([c])
            if len(comps) > 1 and (not tt or B.build(tt)[0]):
                good.append(c)
            else:
                unbuilt.append(c.name)
        comps = good
    if not comps:
        print("BUILD-FAILED property=%s: the harness could not be built from the working tree; nothing was decided" % pid)
        return 2
    if mode == "build":
        return 0
    scratch = tempfile.mkdtemp(prefix="htverif.%s." % pid)
    try:
        if mode == "replay":
            for c in comps:
                if not only and ("." + c.name + ".") not in os.path.basename(a[2]) and len(comps) > 1:
                    continue
                rc, js = c.replay(a[2], scratch) if hasattr(c, "replay") else run_json([c.exe(), "replay", os.path.abspath(a[2]), "--scratch", scratch] + c.timeout_args(), 300, scratch)
                print(json.dumps(js, indent=1))
                return rc
            return 3
        return decide(pid, prop, comps, tier, seed, scratch, t0, unbuilt)
    finally:
        subprocess.run(["rm", "-rf", scratch])


def decide(pid, prop, comps, tier, seed, scratch, t0, unbuilt=()):
    violations, unconfirmed, cov, infra = [], [], {}, ["%s could not be built from the working tree" % u for u in unbuilt]
    build_s = time.time() - t0
    for k in known_findings(pid):
        for c in comps:
            if c.name == k["component"]:
                rc, js = c.probe(k["probe"], scratch)
                if rc == 1:
                    print("KNOWN-FINDING: property=%s %s" % (pid, k["text"]))
                elif rc == 0:
                    print("note: known finding no longer reproduces: property=%s %s" % (pid, k["text"]))
    for c in comps:
        sc = os.path.join(scratch, c.name)
        os.makedirs(sc, exist_ok=True)
        res, failures = c.run(seed, sc)
        cov[c.name] = res
        if res["evaluations"] and res["broken"] > res["evaluations"] * 0.2 or not res["evaluations"]:
            infra.append("%s: %d of %d cases could not be run (%s)" % (c.name, res["broken"], res["evaluations"], {k: v for k, v in res["labels"].items() if "broken" in k}))
        seen = set()
        for f in failures:
            sig = f["outcome"]["signature"]
            if sig in seen:
                continue
            seen.add(sig)
            r = c.confirm(f, sc)
            if r is None:
                unconfirmed.append("%s: %s" % (c.name, sig))
                continue
            tape, out = r
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            dst = os.path.join(VERIF, "replays", "%s.%s.%s.tape" % (pid, c.name, re.sub(r"[^\w-]+", "_", out.get("signature", sig))[:60]))
            shutil.copy(tape, dst)
            violations.append(dict(component=c.name, signature=out.get("signature", sig), msg=out.get("msg", "")[:1500], log=out.get("log", "")[:2500], replay=dst))
            break     # one confirmed violation per component is enough
        if violations:
            break
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.get("level", "exploration"),
              coverage=dict(evaluations=sum(r["evaluations"] for r in cov.values()), distinct_nontrivial=sum(r["distinct"] for r in cov.values()), rule=prop["rule"],
                            samples=[s for r in cov.values() for s in r["samples"]][:10],
                            components={n: dict(evaluations=r["evaluations"], distinct_nontrivial=r["distinct"], discards=r["discards"], broken=r["broken"],
                                                workers_stopped_by_time=r["timed_out"], classes=r["labels"]) for n, r in cov.items()},
                            unconfirmed=unconfirmed),
              assumptions=prop.get("assumptions", []), violations=violations, build_s=round(build_s, 1), wall_s=round(time.time() - t0, 2))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for n, r in cov.items():
        print("%s/%s: %d cases, %d distinct non-trivial, %d discarded, %d broken" % (pid, n, r["evaluations"], r["distinct"], r["discards"], r["broken"]))
    for u in unconfirmed:
        print("note: unconfirmed (did not reproduce): " + u)
    for v in violations:
        print(v["signature"] + ": " + v["msg"][:1500])
        if v["log"]:
            print("--- case ---\n" + v["log"])
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    if violations:
        return 1
    if infra:
        print("INFRASTRUCTURE: " + "; ".join(infra))
        return 2
    print("OK property=%s (%.1f s)" % (pid, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())

"""Base of the components written in Python: seeded generation over worker processes, confirmation, shrinking, replay files.

A component defines
   NAME, prepare(scratch)              optional
   gen(rng, index)       -> case       JSON-serialisable
   run_case(case, dir)   -> dict(status="ok"|"fail"|"broken", key, msg, nontrivial, labels, sample)
   shrink(case)          -> iterator of smaller cases (optional)
"""
import hashlib, json, multiprocessing as mp, os, random, shutil, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Rng(random.Random):
    def chance(self, n, d):
        return self.randrange(d) < n

    def weighted(self, *w):
        return self.choices(range(len(w)), w)[0]

    def scaled(self, maxbits):
        return self.getrandbits(self.randint(1, maxbits)) if maxbits else 0

    def u64any(self):
        k = self.weighted(3, 2, 2, 1)
        if k == 0:
            return self.scaled(64)
        if k == 1:
            return (1 << 64) - 1 - self.scaled(16)
        if k == 2:
            return max(0, min((1 << 64) - 1, (1 << self.randrange(64)) + self.randrange(-1, 2)))
        return self.getrandbits(64)


def _worker(comp, seed, first, stride, count, deadline, d, q):
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    n = 0
    try:
        for i in range(first, first + stride * count, stride):
            if time.time() > deadline:
                q.put(("timeout", None))
                break
            rng = Rng("%s/%s/%s" % (comp.name, seed, i))
            case = comp.gen(rng, i)
            try:
                o = comp.run_case(case, d)
            except Exception:
                o = dict(status="broken", key="exception", msg=traceback.format_exc()[-1500:])
            o["hash"] = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
            o["case"] = case if o["status"] == "fail" else None
            o["index"] = i
            q.put(("case", o))
            n += 1
            if o["status"] == "fail":
                break
    finally:
        q.put(("done", None))


class PyComponent:
    workers = 8

    def __init__(self, spec, tier):
        self.s, self.tier = spec, tier
        self.name = spec["name"]

    def target(self):
        return None

    def extra_targets(self):
        return []

    def prepare(self, scratch):
        pass

    def shrink(self, case):
        return iter(())

    def probe(self, name, scratch):
        self.prepare(scratch)
        o = self.run_case(self.PROBES[name], scratch)
        return (1 if o["status"] == "fail" else 0), o

    def run(self, seed, scratch):
        count, secs = self.s[self.tier]
        self.prepare(scratch)
        deadline = time.time() + secs
        w = self.s.get("workers", self.workers)
        q = mp.Queue()
        ps = []
        for i in range(w):
            p = mp.Process(target=_worker, args=(self, seed, i, w, (count - i + w - 1) // w, deadline, os.path.join(scratch, "w%d" % i), q))
            p.start()
            ps.append(p)
        res = dict(evaluations=0, discards=0, broken=0, labels={}, samples=[], timed_out=0, distinct=0)
        failures, hashes, done = [], set(), 0
        hard = deadline + self.s.get("case_timeout", 60) + 60
        while done < w and time.time() < hard:
            try:
                k, o = q.get(timeout=2)
            except Exception:
                if not any(p.is_alive() for p in ps):
                    break
                continue
            if k == "done":
                done += 1
            elif k == "timeout":
                res["timed_out"] += 1
            else:
                res["evaluations"] += o.get("cases", 1)
                for l, n in o.get("labels", {}).items():
                    res["labels"][l] = res["labels"].get(l, 0) + n
                if o["status"] == "broken":
                    res["broken"] += o.get("cases", 1)
                    res["labels"]["broken:" + str(o.get("key"))] = res["labels"].get("broken:" + str(o.get("key")), 0) + 1
                    if res["broken"] < 4:
                        sys.stderr.write("broken case: %s\n" % str(o.get("msg"))[:1500])
                elif o["status"] == "fail":
                    failures.append(dict(case=o["case"], outcome=dict(status="fail", signature="fail:" + o["key"], msg=o["msg"])))
                else:
                    if o.get("nontrivial"):
                        for h in o.get("hashes") or [o["hash"]]:
                            hashes.add(h)
                    if len(res["samples"]) < 4 and o.get("sample"):
                        res["samples"].append(dict(index=o["index"], case=str(o["sample"])[:1500]))
        for p in ps:
            p.join(1)
            if p.is_alive():
                p.terminate()
        res["distinct"] = len(hashes)
        failures.sort(key=lambda f: len(json.dumps(f["case"])))
        return res, failures

    def confirm(self, f, scratch):
        d = os.path.join(scratch, "confirm")
        os.makedirs(d, exist_ok=True)
        case = f["case"]
        tries, need = (self.s.get("confirm_tries", 10), 1) if self.s.get("nondet") else (3, 3)

        def bad(c):
            last, n = None, 0
            for i in range(tries):
                try:
                    o = self.run_case(c, d)
                except Exception:
                    return None
                if o["status"] == "fail":
                    last, n = o, n + 1
                elif need == tries:
                    return None
                if n >= need:
                    return last
            return None
        out = bad(case)
        if not out:
            return None
        end = time.time() + self.s.get("shrink_time", 25)
        progress = True
        while progress and time.time() < end:
            progress = False
            for c in self.shrink(case):
                if time.time() > end:
                    break
                try:
                    o = self.run_case(c, d)
                except Exception:
                    continue
                if o["status"] == "fail" and o["key"] == out["key"]:
                    case, out, progress = c, o, True
                    break
        final = bad(case)
        if final is None:
            case, final = f["case"], bad(f["case"]) or out
        p = os.path.join(scratch, "shrunk.json")
        json.dump(case, open(p, "w"), indent=1)
        return p, dict(signature="fail:" + final["key"], msg=final["msg"], log=str(final.get("sample") or json.dumps(case))[:2500])

    def replay(self, path, scratch):
        self.prepare(scratch)
        o = self.run_case(json.load(open(path)), scratch)
        return (1 if o["status"] == "fail" else 0), o

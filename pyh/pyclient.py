"""C22: generated streams through hawktracer.client.Client: polling, callbacks, stopping and restarting at generated points."""
import copy, json, os, random, subprocess
import chrome, pybind
import htwire as W

MODES = ["poll", "poll", "callback", "callback", "stop_in_cb", "stop_main", "delete", "restart", "unstarted", "badsource", "leak", "parallel", "start_in_cb", "drop_in_cb", "pollers", "late", "stop_many"]


class Component(chrome.Component):
    PROBES = {}

    def extra_targets(self):
        return [t for t in pybind.targets() if "client" in t["name"]]

    def prepare(self, scratch):
        self.env = pybind.env({})

    def gen(self, r, index):
        sc = []
        for _ in range(r.randint(1, 6)):
            s = chrome.Component.gen(self, r, index)
            del s["maps"], s["out"]
            if r.chance(1, 4):      # texts which are not valid UTF-8
                for it in s["items"]:
                    if it[0] == "e":
                        for f, v in it[4].items():
                            if isinstance(v, str) and r.chance(1, 4):
                                it[4][f] = v[:4] + "\udcff" + v[4:] + r.choice(["", "\udcc3", "\udced\udca0\udc80"])
            m = r.choice(MODES)
            if m == "leak" and r.chance(3, 4):
                m = "callback"
            sc.append(dict(stream=s, mode=m, source="tcp" if m in ("stop_main", "delete") or r.chance(1, 3) else "file", chunk=r.choice([1, 3, 50, 1000, 100000]), at=r.randint(0, 12),
                           raising=r.choice([0, 0, 1, 3]), kind=r.choice(["function", "method", "partial", "object"]), none=r.chance(1, 4), sub=r.chance(1, 4), again=r.chance(1, 2), wait=r.chance(1, 2),
                           end_socket=r.chance(1, 2)))
        return dict(scenarios=sc, exit=r.chance(1, 5))

    def stream(self, case):
        w = W.Writer(case["big"])
        w.endian()
        exp = [["HT_EndiannessInfoEvent", dict(endianness=1 if case["big"] else 0, klass_id=0, timestamp=0, id=0)]]
        enc = lambda s: s.encode("utf8", "surrogateescape")
        ends = [len(w.o)]
        for it in case["items"]:
            k = case["ks"][it[1]]
            if it[0] == "k":
                n0 = len(w.ends)
                w.klass(k["id"], k["name"], k["base"], k["own"])
                ends += [e for e, _ in w.ends[n0:]]
                exp.append(["HT_EventKlassInfoEvent", dict(info_klass_id=k["id"], event_klass_name=k["name"], field_count=len(k["own"]) + 1, klass_id=2, timestamp=0, id=0)])
                for tn, nm, sz, dt in [(k["base"], "base", 24, W.DT_STRUCT)] + [({"u": "uint%d_t" % (8 * f[1]), "i": "int%d_t" % (8 * f[1]), "s": "const char*"}[f[0]], f[2], f[1], {"u": W.DT_UINT, "i": W.DT_INT, "s": W.DT_STRING}[f[0]]) for f in k["own"]]:
                    exp.append(["HT_EventKlassFieldInfoEvent", dict(info_klass_id=k["id"], field_type=tn, field_name=nm, size=sz, data_type=dt, klass_id=3, timestamp=0, id=0)])
            else:
                fs = [f for c in self.chain(case["ks"], k["name"]) for f in c["own"]]
                w.event(k["id"], it[2], it[3], [(f[0], f[1], enc(it[4][f[2]]) if f[0] == "s" else it[4][f[2]]) for f in fs], 1)
                ends.append(len(w.o))
                v = {f[2]: it[4][f[2]] if f[0] == "s" else W.signed(it[4][f[2]], f[1]) if f[0] == "i" else it[4][f[2]] & ((1 << (8 * f[1])) - 1) for f in fs}
                exp.append([k["name"], dict(v, klass_id=k["id"], timestamp=it[2], id=it[3])])
        data = bytes(w.o)
        if case["cut"] is not None:
            data = data[:case["cut"] % (len(data) + 1)]
        return data, [e for e, end in zip(exp, ends) if end <= len(data)]

    def same(self, got, exp):
        if got[0] != exp[0] or set(got[1]) != set(exp[1]):
            return False
        for k, e in exp[1].items():
            g = got[1][k]
            if isinstance(e, str):
                b = e.encode("utf8", "surrogateescape")
                try:
                    if g != b.decode():
                        return False
                except UnicodeDecodeError:       # how bytes that are no text are represented is free, but they do not hide the event or the text around
                    if not isinstance(g, str) or not g.startswith(e.split("\udcff")[0]):
                        return False
            elif type(g) is not int or g != e:
                return False
        return True

    def run_case(self, case, d):
        spec, exps = [], []
        for n, s in enumerate(case["scenarios"]):
            data, exp = self.stream(s["stream"])
            with open(os.path.join(d, "c.%d.htdump" % n), "wb") as f:
                f.write(data)
            exps.append(exp)
            spec.append(dict({k: v for k, v in s.items() if k != "stream"}, events=len(exp)))
        with open(os.path.join(d, "c.json"), "w") as f:
            json.dump(dict(scenarios=spec, exit=case["exit"]), f)
        out = os.path.join(d, "c.out")
        if os.path.exists(out):
            os.unlink(out)
        desc = json.dumps(spec)[:600]

        def bad(key, msg):
            return dict(status="fail", key=key, msg=msg, sample=desc)
        p = subprocess.Popen([pybind.PY, "-S", os.path.join(pybind.HERE, "pyclientchild.py"), d], env=self.env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", cwd=d)
        try:
            err = p.communicate(timeout=45)[1]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            where = ""
            try:
                where = open(os.path.join(d, "c.at")).read()
            except OSError:
                pass
            return bad("hang", "the client hangs in " + where)
        if p.returncode == 97 or p.returncode < 0 or "ERROR: AddressSanitizer" in err:
            return bad("crash", "exit code %d in %s: %s" % (p.returncode, open(os.path.join(d, "c.at")).read() if os.path.exists(os.path.join(d, "c.at")) else "", err[-1500:]))
        try:
            res = json.load(open(out))
        except Exception:
            return dict(status="broken", key="no-result", msg=err[-1500:])
        if p.returncode:
            return bad("exit-code", "exit code %d: %s" % (p.returncode, err[-800:]))
        labels, total = {}, 0
        for n, (s, r) in enumerate(zip(case["scenarios"], res)):
            if "broken" in r:
                return dict(status="broken", key="child", msg=r["broken"])
            if r.get("error"):
                return bad("error", "scenario %s: %s" % (s["mode"], r["error"]))
            labels["mode:" + s["mode"]] = labels.get("mode:" + s["mode"], 0) + 1
            if r.get("merge") is not None:
                # every poller has its events in order, together they have all
                exp, at = exps[n], [0] * len(r["merge"])
                if sum(map(len, r["merge"])) != len(exp):
                    return bad("count", "scenario %s: %s events were polled, %d expected" % (s["mode"], [len(g) for g in r["merge"]], len(exp)))
                states = {tuple(at)}
                for e in exp:
                    states = {x[:k] + (x[k] + 1,) + x[k + 1:] for x in states for k in range(len(x)) if x[k] < len(r["merge"][k]) and self.same(r["merge"][k][x[k]], e)}
                    if not states:
                        return bad("event", "scenario %s: polled events are not those of the stream in order; not found: %s" % (s["mode"], json.dumps(e)[:500]))
                    if len(states) > 2000:
                        break
                total += len(exp)
            for i, got in enumerate(r["runs"]):
                exp = exps[n] * (r.get("times") or 1)
                lo, hi = len(exp), len(exp)
                if s["mode"] in ("stop_main", "delete"):
                    lo = 0
                elif s["mode"] == "stop_many":
                    lo, hi = 0, min(len(exp), s["at"] + 1)
                elif s["mode"] in ("stop_in_cb", "drop_in_cb") or (s["mode"] == "start_in_cb" and i == 0):
                    lo = hi = min(len(exp), s["at"] + 1)
                if not lo <= len(got) <= hi:
                    return bad("count", "scenario %s: %d events are delivered, %d expected" % (s["mode"], len(got), hi))
                for i, (g, e) in enumerate(zip(got, exp)):
                    if not self.same(g, e):
                        return bad("event", "scenario %s: event %d is %s, expected %s" % (s["mode"], i, json.dumps(g)[:500], json.dumps(e)[:500]))
                total += len(got)
        return dict(status="ok", nontrivial=total >= 5, labels=labels, cases=1, sample=desc)

    def shrink(self, case):
        for i in range(len(case["scenarios"])):
            if len(case["scenarios"]) > 1:
                c = copy.deepcopy(case)
                del c["scenarios"][i]
                yield c
        for i, s in enumerate(case["scenarios"]):
            for x in chrome.Component.shrink(self, dict(s["stream"], maps=None, out="out.json")):
                c = copy.deepcopy(case)
                c["scenarios"][i]["stream"] = {k: v for k, v in x.items() if k not in ("maps", "out")}
                yield c
            for k, v in (("raising", 0), ("kind", "function"), ("sub", False), ("source", "file"), ("chunk", 100000)):
                if s[k] != v and not (k == "source" and s["mode"] in ("stop_main", "delete")):
                    c = copy.deepcopy(case)
                    c["scenarios"][i][k] = v
                    yield c

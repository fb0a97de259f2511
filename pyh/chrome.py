"""C16: generated recorded streams through the real converter executable; the JSON against a model of the stream."""
import copy, json, os, random, socket, subprocess, threading, time
from pycomp import PyComponent
import build as B
import htwire as W

KN = ["HT_StringMappingEvent", "HT_CallstackBaseEvent", "HT_CallstackIntEvent", "HT_CallstackStringEvent"]
OWN = {"HT_StringMappingEvent": [["u", 8, "identifier"], ["s", 8, "label"]], "HT_CallstackBaseEvent": [["u", 8, "duration"], ["u", 4, "thread_id"]],
       "HT_CallstackIntEvent": [["u", 8, "label"]], "HT_CallstackStringEvent": [["s", 8, "label"]]}
BASE = {"HT_StringMappingEvent": "HT_Event", "HT_CallstackBaseEvent": "HT_Event", "HT_CallstackIntEvent": "HT_CallstackBaseEvent", "HT_CallstackStringEvent": "HT_CallstackBaseEvent"}
CORE = ("thread_id", "timestamp", "klass_id", "id", "label", "duration")


class Component(PyComponent):
    fmt = "chrome-tracing"

    def extra_targets(self):
        return [dict(name="converter", variant="asan", sources=[os.path.join(B.REPO, "client", "main.cpp")], client=True)]

    def exe(self):
        return os.path.join(B.BUILD, "asan", "converter")

    # ---- generation ---------------------------------------------------------------------------------------------------
    def gen_classes(self, r):
        ks, used, ids = [], set(KN), {0, 1, 2, 3, 0xffffffff}

        def kid():
            i = r.scaled(32) if r.chance(1, 4) else r.randint(4, 40)
            while i in ids:
                i = (i + 1) & 0xffffffff
            ids.add(i)
            return i
        for n in KN:
            ks.append(dict(name=n, base=BASE[n], id=kid(), own=OWN[n]))
        for _ in range(r.randint(0, 5)):
            n = W.gen_name(r, used)
            base = r.choice(["HT_Event", "HT_CallstackBaseEvent"] + [k["name"] for k in ks[2:]] * 2)
            chain = {f[2] for k in self.chain(ks, base) for f in k["own"]}
            fu, own = set(chain), []
            if "label" not in chain and r.chance(1, 2):
                own.append(r.choice([["s", 8, "label"], ["u", 8, "label"]]))
                fu.add("label")
            if "name" not in chain and r.chance(1, 6):
                own.append(r.choice([["s", 8, "name"], ["s", 8, "name"], ["u", 4, "name"]]))
                fu.add("name")
            for _ in range(r.randint(0, 4)):
                k = r.choice("uisus")
                own.append([k, 8 if k == "s" else r.choice([1, 2, 4, 8]), W.gen_name(r, fu)])
            r.shuffle(own)
            ks.append(dict(name=n, base=base, id=kid(), own=own))
        return ks

    def chain(self, ks, name):
        d = {k["name"]: k for k in ks}
        out = []
        while name in d:
            out.append(d[name])
            name = d[name]["base"]
        return out[::-1]

    def gen(self, r, index):
        ks = self.gen_classes(r)
        pool = [r.u64any() for _ in range(r.randint(1, 4))] + list(range(r.randint(1, 6)))
        items, described, n = [], 1, r.choice([0, 1, 2, 5, 20, 60]) if r.chance(1, 3) else r.randint(1, 25)
        items.append(["k", 0])
        if r.chance(1, 2):
            while described < len(ks):
                items.append(["k", described])
                described += 1
        for _ in range(n):
            while described < len(ks) and r.chance(1, 2):
                items.append(["k", described])
                described += 1
            j = r.randrange(described)
            if ks[j]["base"] != "HT_Event" and not any(x == ["k", [k["name"] for k in ks].index(ks[j]["base"])] for x in items):
                continue
            vals = {}
            for k in self.chain(ks, ks[j]["name"]):
                for f in k["own"]:
                    if f[0] == "s":
                        vals[f[2]] = W.gen_text(r)
                    elif f[2] in ("label", "identifier"):
                        vals[f[2]] = r.choice(pool)
                    elif f[2] == "thread_id":
                        vals[f[2]] = r.scaled(32) if r.chance(1, 4) else r.randint(0, 5)
                    else:
                        vals[f[2]] = r.u64any() & ((1 << (8 * f[1])) - 1)
            items.append(["e", j, r.u64any(), r.u64any(), vals])
        case = dict(big=r.chance(1, 3), ks=ks, items=items, cut=r.getrandbits(32) if r.chance(1, 6) else None, maps=None, out="out.json")
        if r.chance(1, 3):
            case["maps"] = []
            for _ in range(r.randint(1, 3)):
                case["maps"].append(None if r.chance(1, 6) else
                                    [[r.choice(["cpp", "lua", "x"]), W.gen_text(r, 20, bad=" \n\t\r\f\v") or "l", r.choice(pool)] for _ in range(r.randint(0, 6))])
        if r.chance(1, 8):
            case["out"] = r.choice(["o" * 100 + "/" + "p" * r.randint(1, 120), "a b,c", "x" * 200, "t.json"])
        case["live"] = self.gen_live(r)
        return case

    def gen_live(self, r):
        """the stream is not a file but arrives over TCP while the converter runs"""
        if not r.chance(1, 10):
            return None
        return dict(seed=r.getrandbits(32), late=r.chance(1, 5), early=r.chance(1, 4), small=r.chance(1, 2))

    def execute_live(self, cmd, d, data, live, wait):
        r = random.Random(live["seed"])
        sv = socket.socket()
        sv.bind(("127.0.0.1", 0))
        if not live["late"]:
            sv.listen(1)
        sv.settimeout(20)
        cmd = list(cmd)
        cmd[cmd.index("--source") + 1] = "127.0.0.1:%d" % sv.getsockname()[1]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:symbolize=0:exitcode=99:allocator_may_return_null=1", LC_ALL="C.UTF-8")
        out = open(os.path.join(d, "live.log"), "wb+")
        p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.PIPE, stdout=out, stderr=out, env=env)
        err, peer = None, None
        try:
            if live["late"]:
                time.sleep(r.random() / 10)
                sv.listen(1)
            try:
                peer = sv.accept()[0]
            except OSError:
                err = dict(status="fail", key="no-connection", msg="the converter did not connect to its source")
            i = 0
            while peer and i < len(data):
                n = r.randint(1, 60 if live["small"] else 3000)
                try:
                    peer.sendall(data[i:i + n])
                except OSError:
                    break          # the converter rejected the stream
                i += n
                if r.randint(0, 9) == 0 and not wait:
                    time.sleep(r.random() / 2000)
            if peer and not live["early"]:
                peer.shutdown(socket.SHUT_WR)
            if peer:
                time.sleep(wait or (r.random() / 20 if live["early"] else 0.1))
            try:
                p.communicate(b"\n", timeout=30)
            except subprocess.TimeoutExpired:
                err = err or dict(status="fail", key="hang", msg="the converter does not end after Enter")
        finally:
            p.kill()
            p.wait()
            for x in (peer, sv):
                if x:
                    x.close()
        out.seek(0)
        log = out.read()
        out.close()
        if not err and p.returncode:
            err = dict(status="fail", key="crash", msg="the converter ends with status %d: %s" % (p.returncode, log[-800:].decode("utf8", "replace")))
        return err

    # ---- stream and model ---------------------------------------------------------------------------------------------
    def stream(self, case):
        w = W.Writer(case["big"])
        w.endian()
        for n, it in enumerate(case["items"]):
            k = case["ks"][it[1]]
            if it[0] == "k":
                w.klass(k["id"], k["name"], k["base"], k["own"])
            else:
                vals = [(f[0], f[1], it[4][f[2]].encode() if f[0] == "s" else it[4][f[2]]) for c in self.chain(case["ks"], k["name"]) for f in c["own"]]
                w.event(k["id"], it[2], it[3], vals, n)
        data, ends = bytes(w.o), w.ends
        if case["cut"] is not None:
            data = data[:case["cut"] % (len(data) + 1)]
        return data, [t for e, t in ends if t is not None and e <= len(data)]

    def mapping(self, case):
        m = {}
        for f in case["maps"] or []:
            for c, l, i in f or []:
                m[i] = l
        return m

    def model(self, case, complete):
        m, out = self.mapping(case), []
        for n in complete:
            it = case["items"][n]
            k, v = case["ks"][it[1]], it[4]
            if k["name"] == "HT_StringMappingEvent":
                m[v["identifier"]] = v["label"]
                continue
            fs = {f[2]: f for c in self.chain(case["ks"], k["name"]) for f in c["own"]}
            if "label" in fs:
                label = v["label"] if fs["label"][0] == "s" else m.get(v["label"], str(v["label"]))
            elif "name" in fs and fs["name"][0] == "s":
                label = v["name"]
            else:
                continue
            args = {n: (v[n] if f[0] == "s" else v[n] if f[0] == "u" else W.signed(v[n], f[1])) for n, f in fs.items() if n not in CORE}
            out.append(dict(name=label, ph="X", ts=it[2] // 1000, dur=v.get("duration", 0) // 1000, pid=0, tid=v.get("thread_id", 0), args=args))
        return out

    def write_inputs(self, case, d):
        data, complete = self.stream(case)
        open(os.path.join(d, "in.htdump"), "wb").write(data)
        cmd = [self.exe(), "--source", "in.htdump", "--format", self.fmt, "--output", case["out"]]
        if case.get("maps") is not None:
            names = []
            for i, f in enumerate(case["maps"]):
                names.append("map%d" % i)
                p = os.path.join(d, names[-1])
                if os.path.exists(p):
                    os.unlink(p)
                if f is not None:
                    open(p, "w", encoding="utf8").write("".join("%s %s %d\n" % tuple(x) for x in f))
            cmd += ["--map", ",".join(names)]
        return cmd, complete

    def execute(self, cmd, d):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:symbolize=0:exitcode=99:allocator_may_return_null=1", LC_ALL="C.UTF-8")
        try:
            p = subprocess.run(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, env=env)
        except subprocess.TimeoutExpired:
            return dict(status="fail", key="hang", msg="the converter does not end")
        if p.returncode:
            return dict(status="fail", key="crash", msg="the converter ends with status %d: %s" % (p.returncode, p.stderr[-800:].decode("utf8", "replace")))
        return None

    def run_case(self, case, d):
        o = os.path.join(d, case["out"])
        os.makedirs(os.path.dirname(o) or d, exist_ok=True)
        if os.path.exists(o):
            os.unlink(o)
        cmd, complete = self.write_inputs(case, d)
        live = case.get("live")
        bad = self.execute_live(cmd, d, self.stream(case)[0], live, 0) if live else self.execute(cmd, d)
        if bad:
            return bad
        exp = self.model(case, complete)
        lab = dict(streams=1, events=len(exp), truncated=case["cut"] is not None, maps=case["maps"] is not None, big_endian=case["big"])
        r = self.compare(exp, o, bool(live and live["early"]))
        if r and r[0] == "count" and live and not live["early"]:      # Enter may have come before everything was read
            bad = self.execute_live(cmd, d, self.stream(case)[0], live, 4)
            if bad:
                return bad
            r = self.compare(exp, o)
        if live:
            lab["live"] = 1
        if r:
            return dict(status="fail", key=r[0], msg=r[1], sample=json.dumps(case)[:2000])
        return dict(status="ok", nontrivial=len(exp) >= 2, labels={k: int(v) for k, v in lab.items()},
                    sample="%d events, %d entries, first %s" % (len(complete), len(exp), json.dumps(exp[:1])[:300]))

    def compare(self, exp, o, prefix=False):
        try:
            raw = open(o, "rb").read()
        except OSError as e:
            return ("no-output", "no output file: %s" % e)
        def pairs(ps):
            if len({p[0] for p in ps}) != len(ps):
                raise ValueError("key twice in one object: %s" % ps)
            return dict(ps)
        try:
            doc = json.loads(raw.decode("utf8"), object_pairs_hook=pairs)
        except ValueError as e:
            return ("not-json", "the output is not valid JSON: %s\n%s" % (e, raw[:500]))
        if not isinstance(doc, dict) or not isinstance(doc.get("traceEvents"), list):
            return ("not-json", "no traceEvents list: %s" % str(doc)[:300])
        got = doc["traceEvents"]
        if prefix:
            exp = exp[:len(got)]
        for i in range(max(len(got), len(exp))):
            if i >= len(got) or i >= len(exp):
                return ("count", "%d entries, expected %d; first difference: %s / expected %s" % (len(got), len(exp), got[i:i + 1], exp[i:i + 1]))
            g, e = got[i], exp[i]
            for k in e:
                if k not in g or g[k] != e[k] or type(g[k]) is not type(e[k]) or (k == "args" and any(type(g[k][a]) is not type(e[k][a]) for a in e[k])):
                    return ("entry", "entry %d: %s is %s, expected %s" % (i, k, json.dumps(g.get(k))[:400], json.dumps(e[k])[:400]))
        return None

    def shrink(self, case):
        n = len(case["items"])
        step = n // 2
        while step >= 1:
            for i in range(0, n, step):
                c = copy.deepcopy(case)
                del c["items"][i:i + step]
                if self.valid(c):
                    yield c
            step //= 2
        for k, v in (("cut", None), ("live", None), ("maps", None), ("big", False), ("out", "out.json")):
            if case.get(k) != v:
                c = copy.deepcopy(case)
                c[k] = v
                yield c
        for i, it in enumerate(case["items"]):
            if it[0] == "e":
                for f, v in it[4].items():
                    for s in ([v[:len(v) // 2], v[1:], v[:-1]] if isinstance(v, str) else [0, v // 2]):
                        if s != v:
                            c = copy.deepcopy(case)
                            c["items"][i][4][f] = s
                            yield c

    def valid(self, case):
        seen = set()
        if not case["items"] or case["items"][0] != ["k", 0]:
            return False
        for it in case["items"]:
            if it[0] == "k":
                seen.add(it[1])
            elif it[1] not in seen or any(case["ks"].index(c) not in seen for c in self.chain(case["ks"], case["ks"][it[1]]["name"])):
                return False
        return True

"""C21: the converter executable run with generated command lines: what it accepts, and which files it writes."""
import copy, json, os, shutil, subprocess, time
import chrome
import htwire as W

FLAG = {"help": True, "format": False, "output": False, "source": False, "map": False}
FIELDS = [("u", 8, "duration"), ("u", 4, "thread_id"), ("s", 8, "label")]


class Component(chrome.Component):
    PROBES = {}

    def gen(self, r, index):
        opts = []
        if r.chance(9, 10):
            opts.append(["source", r.choice(["in.htdump", "in.htdump", "./in.htdump", "10.0.0.1:80", "in put%d", "in.htdump", "in.htdump", "missing", "10.0.0.256", "10.0.0.1:65536", ""])])
        if r.chance(1, 2):
            opts.append(["format", r.choice(["chrome-tracing", "callgrind", "chrome-tracing", "callgrind", "chrome", "", "Callgrind", "--output"])])
        if r.chance(4, 5):
            opts.append(["output", r.choice(["o", "out.json", "a b", "--output", "o-%Y-%m-%d", "%H%M%S.x", "100%%", "%%d", "%j/o", "sub/o", "%y%p" + "z" * 150, "no/such/o", "sub", "full"])])
        if r.chance(1, 4):
            opts.append(["map", r.choice(["m", "m,m", "--source", "m"])])
        if r.chance(1, 12):
            opts.append(["help", None])
        if r.chance(1, 6) and opts:
            n = r.choice(opts)[0]
            opts.append([n, None if FLAG[n] else r.choice(["o2", "chrome-tracing"] if n == "output" else ["o2", "in.htdump", "chrome-tracing"])])   # repeated
        r.shuffle(opts)
        args = []
        for n, v in opts:
            args += ["--" + n] + ([v] if v is not None else [])
        if r.chance(1, 4):
            k = r.randrange(5)
            at = r.randint(0, len(args))
            if k == 0 and args:
                args.pop()
            elif k == 1:
                args.insert(at, r.choice(["--", "-", "x", "--Source", "--sourc", "--sources", "-source", "--format=callgrind", "--help=1", ""]))
            elif k == 2:
                args.append("--" + r.choice(list(FLAG)))
            elif k == 3 and args:
                del args[r.randrange(len(args))]
            else:
                args.insert(at, "--help")
        return dict(args=args, spans=[[r.randint(0, 2), r.randint(0, 9) * 1000, r.randint(1, 9) * 1000, r.choice("abc")] for _ in range(r.randint(1, 4))])

    def parse(self, args):
        vals, i = {}, 0
        while i < len(args):
            a = args[i]
            if not a.startswith("--") or len(a) < 3 or a[2:] not in FLAG:
                return None
            n = a[2:]
            if FLAG[n]:
                vals.setdefault(n, "")
            else:
                i += 1
                if i >= len(args):
                    return None
                vals.setdefault(n, args[i])
            i += 1
        return vals if "source" in vals else None

    def run_case(self, case, d):
        wd = os.path.join(d, "wd")
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(os.path.join(wd, "sub"))
        for j in {time.strftime("%j", time.localtime(time.time() + x)) for x in (0, 60)}:
            os.makedirs(os.path.join(wd, j), exist_ok=True)
        w = W.Writer(False)
        w.endian()
        w.klass(4, "HT_StringMappingEvent", "HT_Event", chrome.OWN["HT_StringMappingEvent"])
        w.klass(8, "HT_CallstackBaseEvent", "HT_Event", FIELDS[:2])
        w.klass(9, "HT_CallstackStringEvent", "HT_CallstackBaseEvent", [FIELDS[2]])
        for t, ts, du, l in case["spans"]:
            w.event(9, ts, 1, [("u", 8, du), ("u", 4, t), ("s", 8, l.encode())])
        data = bytes(w.o)
        for n in ("in.htdump", "in put%d", "10.0.0.1:80"):
            open(os.path.join(wd, n), "wb").write(data)
        open(os.path.join(wd, "m"), "w").write("")
        for n in ("full", "full.0", "full.1", "full.2"):       # nothing can be written to these
            os.symlink("/dev/full", os.path.join(wd, n))

        def files():
            return {os.path.relpath(os.path.join(p, f), wd) for p, _, fs in os.walk(wd) for f in fs}
        before = files()
        v = self.parse(case["args"])
        out = (v or {}).get("output", "hawktracer-trace-%d-%m-%Y-%H_%M_%S.httrace")
        fmt = (v or {}).get("format", "chrome-tracing")
        bad = v is None or fmt not in ("chrome-tracing", "callgrind") or not os.path.isfile(os.path.join(wd, v["source"])) or (fmt == "chrome-tracing" and out in ("no/such/o", "sub"))
        helped = v is not None and "help" in v
        lost = not bad and not helped and ((fmt == "callgrind" and out == "no/such/o") or out == "full")
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:symbolize=0:exitcode=99", LC_ALL="C.UTF-8")
        t0 = int(time.time())
        try:
            p = subprocess.run([self.exe()] + case["args"], cwd=wd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30, env=env)
        except subprocess.TimeoutExpired:
            return dict(status="fail", key="hang", msg="the converter does not end", sample=json.dumps(case))
        t1 = int(time.time())
        new = files() - before

        def fail(key, msg):
            return dict(status="fail", key=key, msg="%s; arguments %s, exit status %d, new files %s: %s" % (msg, case["args"], p.returncode, sorted(new), p.stderr[-300:].decode("utf8", "replace")), sample=json.dumps(case))
        if p.returncode in (99, -6, -11) or p.returncode < 0:
            return fail("crash", "the converter crashed")
        if helped or v is None:
            text = (p.stderr + p.stdout).decode("utf8", "replace")
            if not all("--" + n in text for n in FLAG):
                return fail("help", "the options are not all listed")
        if bad or helped:
            if new:
                return fail("file-created", "files were written although the command line is refused")
            if bad and not helped and p.returncode == 0:
                return fail("accepted", "the command line was accepted")
        elif lost:
            if p.returncode == 0:
                return fail("lost", "the output could not be written, but the converter ends with success")
            if new:
                return fail("file-created", "files were written beside the output")
        else:
            if p.returncode:
                return fail("refused", "the command line was refused")
            names = {os.path.normpath(time.strftime(out.replace("%p", "%p"), time.localtime(t))) for t in range(t0, t1 + 1)}
            if fmt == "callgrind":
                names = {frozenset("%s.%d" % (n, t) for t in {s[0] for s in case["spans"]}) for n in names}
            else:
                names = {frozenset([n]) for n in names}
            if frozenset(new) not in names:
                return fail("files", "written files are wrong, expected %s" % sorted(map(sorted, names)))
            if fmt == "chrome-tracing":
                exp = [dict(name=s[3], ts=s[1] // 1000, dur=s[2] // 1000, tid=s[0]) for s in case["spans"]]
                r = self.compare(exp, os.path.join(wd, next(iter(new))))
                if r:
                    return fail(*r)
        return dict(status="ok", nontrivial=len(case["args"]) >= 3, labels={"run-refused" if bad else "run-lost" if lost else "run-help" if helped else "run-converted": 1}, sample=str(case["args"]))

    def shrink(self, case):
        for i in range(len(case["args"])):
            c = copy.deepcopy(case)
            del c["args"][i]
            yield c
        for i in range(len(case["spans"]) - 1):
            c = copy.deepcopy(case)
            del c["spans"][i]
            yield c

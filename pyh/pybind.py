"""C22: generated Python programs, run with and without the tracing decorator of the bindings; results, effects and recorded spans are compared."""
import copy, json, os, subprocess, sysconfig
from pycomp import PyComponent
import build as B
import htwire as W

PY = "/usr/bin/python3"
HERE = os.path.dirname(os.path.abspath(__file__))


def targets():
    inc = subprocess.run([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], capture_output=True, text=True).stdout.strip()
    b = os.path.join(B.REPO, "bindings/python3")
    return [dict(name="hawktracer/core.so", variant="pyasan", sources=[os.path.join(b, "hawktracer_core_python.cpp")], flags="-I" + inc, ldflags="-shared"),
            dict(name="hawktracer/client.so", variant="pyasan", sources=[os.path.join(b, "hawktracer_client_python.cpp"), os.path.join(b, "client_context.cpp")], client=True, flags="-I" + inc, ldflags="-shared")]


def env(extra):
    asan = subprocess.run([B.GCC, "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    e = dict(os.environ, LD_PRELOAD=asan, ASAN_OPTIONS="detect_leaks=0:exitcode=97:allocator_may_return_null=1", PYTHONMALLOC="malloc", PYTHONPATH=os.path.join(B.BUILD, "pyasan"), PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", PYTHONUTF8="1")
    e.pop("HT_PYTHON_TRACE_ENABLED", None)
    e.update(extra)
    return e


VALS = ["0", "-1", "7", "2**70", "None", "'x'", "'\\u20ac'", "b'\\0z'", "(1, 'a')", "S", "S", "3.5", "[]", "True", "..."]
EXCS = ["ValueError('v', 3)", "KeyError('k')", "StopIteration(5)", "MyErr(S)", "SystemExit(4)", "KeyboardInterrupt()", "MyBase()", "AttributeError('__name__')"]
KINDS = ["def", "def", "def", "lambda", "closure", "method", "method", "clsmethod", "clsmethod_o", "static", "static_o", "prop", "prop_o", "callobj", "callobj_named", "partial", "builtin", "cls", "bound", "gen",
         "coro", "lru", "lru_method", "dunder_call"]


class Component(PyComponent):
    PROBES = {}

    def extra_targets(self):
        return targets()

    def prepare(self, scratch):
        self.env = env({})

    # ---- generation: a program as a list of functions ----------------------------------------------------------------------
    def gen_params(self, r):
        names = iter(["a", "b", "c", "d", "e", "f", "g", "h", "function", "args", "kwargs", "name"])
        p, dflt = [], False
        for k in ("pos", "std"):
            for _ in range(r.choice([0, 0, 1, 2])):
                dflt = dflt or r.chance(1, 4)
                p.append([k, next(names), r.choice(VALS) if dflt else None])
        if r.chance(1, 3):
            p.append(["var", "va", None])
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            p.append(["kwo", next(names), r.choice(VALS) if r.chance(1, 2) else None])
        if r.chance(1, 4):
            p.append(["vkw", "vk", None])
        return p

    def gen_args(self, r, params):
        pos, kw = [], []
        byname = False
        for k, n, d in params:
            if k in ("pos", "std"):
                if d is not None and r.chance(1, 3):
                    byname = True
                    if k == "pos":
                        continue
                    if r.chance(1, 2):
                        continue
                if k == "std" and (byname or r.chance(1, 4)):
                    byname = True
                    kw.append([n, r.choice(VALS)])
                elif not byname:
                    pos.append(r.choice(VALS))
            elif k == "var" and not byname:
                pos += [r.choice(VALS) for _ in range(r.randint(0, 3))]
            elif k == "kwo" and (d is None or r.chance(1, 2)):
                kw.append([n, r.choice(VALS)])
            elif k == "vkw":
                kw += [["x%d" % i, r.choice(VALS)] for i in range(r.randint(0, 2))]
        if r.chance(1, 14):          # a call that does not fit
            k = r.randrange(3)
            if k == 0:
                pos.append("99")
            elif k == 1 and pos:
                pos.pop()
            else:
                kw.append(["zz", "1"])
        r.shuffle(kw)
        return [pos, kw]

    def gen_call(self, r, fs, threads):
        j = r.randrange(len(fs))
        return ["call", j, self.gen_args(r, fs[j]["params"]), r.choice(["inst", "inst", "class"]), r.weighted(3, 1, 1)]      # plain / guarded / star

    def gen_body(self, r, fs, depth, toggles):
        out = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            k = r.weighted(10, 1 if toggles else 0, 1 if toggles else 0, 1)
            if k == 0:
                out.append(self.gen_call(r, fs, False))
            elif k == 1:
                out.append(["toggle", r.chance(1, 2)])
            elif k == 2:
                out.append(["rename", r.randrange(len(fs)), self.gen_fname(r)])
            else:
                out.append(["value", r.choice(VALS)])
        return out

    def gen_fname(self, r):
        k = r.weighted(5, 3, 1, 1)
        if k == 0:
            return r.choice(["f", "g", "foo", "run", "trace_function", "__init__"])
        if k == 1:
            return W.gen_text(r, 40, bad="\0") or "n"
        if k == 2:
            return r.choice("ab\u20ac") * r.choice([100, 500, 1023, 1024, 3000])
        return r.choice(["", " ", "\ud800", "x\udcff", "123456", "<lambda>"])

    def gen(self, r, index):
        multi = r.chance(1, 3)
        fs = [dict(kind=r.choice([k for k in KINDS if not multi or "lru" not in k]), params=self.gen_params(r), name=self.gen_fname(r) if r.chance(1, 2) else None, dec=r.weighted(8, 1) == 0) for _ in range(r.randint(1, 8))]
        for f in fs:
            if f["kind"] in ("prop", "prop_o"):
                f["params"] = []
            f["body"] = []
        for f in fs:
            f["body"] = self.gen_body(r, fs, 0, not multi)
            f["end"] = ["raise", r.choice(EXCS)] if r.chance(1, 6) else ["return", r.choice(VALS + [p[1] for p in f["params"]] * 2)]
        main = []
        for _ in range(r.choice([1, 3, 8, 20])):
            k = r.weighted(12, 0 if multi else 1, 1)
            main.append(self.gen_call(r, fs, False) if k == 0 else ["toggle", r.chance(1, 2)] if k == 1 else ["rename", r.randrange(len(fs)), self.gen_fname(r)])
        case = dict(fs=fs, main=main, threads=[], env=r.choice([None, None, "1", "1", "0"]), init=r.choice(["first", "first", "late", "twice", "never"]), on=r.chance(5, 6),
                    listeners=[[r.randint(0, len(main)) if r.chance(1, 3) else 0, r.choice([None, 16, 32, 64, 300, 4096, 1 << 20])] for _ in range(r.choice([0, 1, 1, 1, 1, 2]))],
                    exit=r.choice(["end", "end", "end", "sysexit", "raise", "daemon"]), fuel=r.choice([5, 20, 60, 60]))
        if multi:
            case["threads"] = [[self.gen_call(r, fs, True) for _ in range(r.randint(1, 12))] for _ in range(r.randint(1, 3))]
        return case

    # ---- the program ---------------------------------------------------------------------------------------------------------
    def params_src(self, params, first=None):
        out, seen_pos, star = ([first] if first else []), False, False
        kinds = [p[0] for p in params]
        for n, (k, name, d) in enumerate(params):
            if k == "kwo" and "var" not in kinds and not star:
                out.append("*")
                star = True
            out.append({"var": "*", "vkw": "**"}.get(k, "") + name + ("" if d is None else "=" + d))
            if k == "pos" and (n + 1 == len(params) or params[n + 1][0] != "pos"):
                out.append("/")
        return ", ".join(out)

    def call_src(self, case, i, args, via):
        k = case["fs"][i]["kind"]
        pos, kw = list(args[0]), ["%s=%s" % (a, b) for a, b in dict(args[1]).items()]
        star = ", ".join(pos + kw)
        if k in ("prop", "prop_o"):
            return "o%d.m" % i
        if k in ("method", "lru_method", "dunder_call"):
            if k == "dunder_call":
                return "o%d(%s)" % (i, star) if via == "inst" else "K%d.__call__(%s)" % (i, ", ".join(["o%d" % i] + pos + kw))
            return "o%d.m(%s)" % (i, star) if via == "inst" else "K%d.m(%s)" % (i, ", ".join(["o%d" % i] + pos + kw))
        if k in ("clsmethod", "clsmethod_o", "static", "static_o"):
            return ("o%d.m(%s)" if via == "inst" else "K%d.m(%s)") % (i, star)
        return "f%d(%s)" % (i, star)

    def stmts(self, case, body, ind):
        out = []
        for st in body:
            if st[0] == "call":
                src = self.call_src(case, st[1], st[2], st[3])
                c = "C0" if case["fs"][st[1]]["kind"] in ("gen", "coro") else "C"
                if st[4] == 1:
                    out += [ind + "try: " + c + "(%d, lambda: %s)" % (st[1], src), ind + "except BaseException as e_: L('caught', R(e_))"]
                else:
                    out.append(ind + c + "(%d, lambda: %s)" % (st[1], src))
            elif st[0] == "toggle":
                out.append(ind + "TOGGLE(%s)" % st[1])
            elif st[0] == "rename":
                out.append(ind + "RENAME(%d, %a)" % (st[1], st[2]))
            elif st[0] == "value":
                out.append(ind + "L('v', repr(%s))" % st[1])
        return out

    def source(self, case):
        o = []
        for i, f in enumerate(case["fs"]):
            k, P = f["kind"], f["params"]
            end = ("raise " if f["end"][0] == "raise" else "return ") + f["end"][1]
            if k in ("lambda",):
                val = f["end"][1] if f["end"][0] == "return" else "None"
                o += ["f%d = T(%d, lambda %s: E(%d, dict(locals())) and %s)" % (i, i, self.params_src(P), i, val)]
                continue
            if k == "builtin":
                o += ["f%d = T(%d, max)" % (i, i)]
                continue
            inner = lambda ind, first=None: ([ind + "E(%d, {k_: v_ for k_, v_ in locals().items() if k_ in %a})" % (i, tuple(p[1] for p in P))]
                                             + [ind + "if FUEL(): return None"] + self.stmts(case, f["body"], ind) + [ind + end])
            if k == "def":
                o += ["@TT(%d)" % i, "def f%d(%s):" % (i, self.params_src(P))] + inner("    ")
            elif k == "closure":
                o += ["def mk%d(cell):" % i, "    @TT(%d)" % i, "    def f%d(%s):" % (i, self.params_src(P)), "        L('cell', cell)"] + inner("        ") + ["    return f%d" % i, "f%d = mk%d(%d)" % (i, i, i * 7)]
            elif k == "gen":
                o += ["@TT(%d)" % i, "def g%d(%s):" % (i, self.params_src(P)), "    yield 1"] + inner("    ") + ["def f%d(*a_, **k_): return list(map(R, C(%d, lambda: g%d(*a_, **k_))))" % (i, i, i)]
            elif k == "coro":
                o += ["@TT(%d)" % i, "async def g%d(%s):" % (i, self.params_src(P))] + inner("    ") + ["def f%d(*a_, **k_): return RUN(C(%d, lambda: g%d(*a_, **k_)))" % (i, i, i)]
            elif k == "lru":
                o += ["@TT(%d)" % i, "@functools.lru_cache(2)", "def f%d(%s):" % (i, self.params_src(P))] + inner("    ")
            elif k in ("method", "lru_method", "clsmethod", "clsmethod_o", "static", "static_o", "prop", "prop_o"):
                d = {"method": ["@TT(%d)" % i], "lru_method": ["@TT(%d)" % i, "@functools.lru_cache(3)"], "clsmethod": ["@classmethod", "@TT(%d)" % i], "clsmethod_o": ["@TT(%d)" % i, "@classmethod"],
                     "static": ["@staticmethod", "@TT(%d)" % i], "static_o": ["@TT(%d)" % i, "@staticmethod"], "prop": ["@property", "@TT(%d)" % i], "prop_o": ["@TT(%d)" % i, "@property"]}[k]
                first = None if "static" in k else "cls" if "cls" in k else "self"
                o += ["class K%d(Base):" % i] + ["    " + x for x in d] + ["    def m(%s):" % self.params_src(P, first)]
                if first:
                    o += ["        L('%s', WHO(%s))" % (first, first)]
                o += inner("        ") + ["o%d = K%d()" % (i, i)]
            elif k == "dunder_call":
                o += ["class K%d(Base):" % i, "    @TT(%d)" % i, "    def __call__(%s):" % self.params_src(P, "self"), "        L('self', WHO(self))"] + inner("        ") + ["o%d = K%d()" % (i, i)]
            elif k in ("callobj", "callobj_named"):
                o += ["class K%d(Base):" % i] + (["    __name__ = %a" % (f["name"] or "named")] if k == "callobj_named" else []) + ["    def __call__(%s):" % self.params_src(P, "self"), "        L('self', WHO(self))"]
                o += inner("        ") + ["f%d = T(%d, K%d())" % (i, i, i)]
            elif k == "partial":
                o += ["def p%d(%s):" % (i, self.params_src(P))] + inner("    ") + ["f%d = T(%d, functools.partial(p%d))" % (i, i, i)]
            elif k == "cls":
                o += ["class K%d(Base):" % i, "    def __init__(%s):" % self.params_src(P, "self")] + inner("        ")[:-1] + ["f%d = T(%d, K%d)" % (i, i, i)]
            elif k == "bound":
                o += ["class K%d(Base):" % i, "    def m(%s):" % self.params_src(P, "self"), "        L('self', WHO(self))"] + inner("        ") + ["o%d = K%d()" % (i, i), "f%d = T(%d, o%d.m)" % (i, i, i)]
        for i, f in enumerate(case["fs"]):
            if f["name"] is not None:
                o.append("RENAME(%d, %a)" % (i, f["name"]))
        o.append("STEP(0)")
        for n, st in enumerate(case["main"]):
            s = self.stmts(case, [st], "    ")
            o += ["try:"] + s + ["except BaseException as e_: L('top', R(e_))", "STEP(%d)" % (n + 1)]
        for n, t in enumerate(case["threads"]):
            o += ["def th%d():" % n]
            for st in t:
                o += ["    try:"] + self.stmts(case, [st], "        ") + ["    except BaseException as e_: L('top', R(e_))"]
            o += ["THREADS.append(th%d)" % n]
        return "\n".join(o) + "\n"

    # ---- running -------------------------------------------------------------------------------------------------------------
    def run_case(self, case, d):
        for f in os.listdir(d):
            if f.startswith("t."):
                os.unlink(os.path.join(d, f))
        src = self.source(case)
        with open(os.path.join(d, "t.py"), "w") as f:
            f.write(src)
        with open(os.path.join(d, "t.json"), "w") as f:
            json.dump(dict(decs=[x["dec"] for x in case["fs"]], env=case["env"], init=case["init"], on=case["on"], listeners=case["listeners"], exit=case["exit"], fuel=case["fuel"]), f)
        e = dict(self.env)
        if case["env"] is not None:
            e["HT_PYTHON_TRACE_ENABLED"] = case["env"]
        try:
            p = subprocess.run([PY, "-S", os.path.join(HERE, "pychild.py"), d], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60, cwd=d)
        except subprocess.TimeoutExpired:
            return dict(status="fail", key="hang", msg="the program does not end", sample=src)

        def bad(key, msg):
            return dict(status="fail", key=key, msg=msg, sample=src)
        if p.returncode == 97 or p.returncode < 0 or "ERROR: AddressSanitizer" in p.stderr:
            return bad("crash", "exit code %d: %s" % (p.returncode, p.stderr[-1500:]))
        try:
            res = json.load(open(os.path.join(d, "t.out")))
        except Exception:
            return dict(status="broken", key="no-result", msg=p.stderr[-1500:] + src)
        if res.get("broken"):
            return dict(status="broken", key="child", msg=res["broken"] + src)
        if res.get("error"):
            return bad("behaviour", "the program only fails with tracing: " + res["error"])
        want_rc = {"end": 0, "sysexit": 7, "raise": 1, "daemon": 0}[case["exit"]]
        if p.returncode != want_rc:
            return bad("exit-code", "exit code %d, expected %d: %s" % (p.returncode, want_rc, p.stderr[-800:]))
        a, b = res["ref"], res["traced"]
        for n, (x, y) in enumerate(zip(a, b)):
            for i in range(max(len(x), len(y))):
                if i >= len(x) or i >= len(y) or x[i] != y[i]:
                    return bad("behaviour", "thread %d, step %d: %s, without tracing %s" % (n, i, y[i] if i < len(y) else "nothing", x[i] if i < len(x) else "nothing"))
        if res["refs"]:
            return bad("references", "; ".join(res["refs"]))
        spans = 0
        for n, (at, size) in enumerate(case["listeners"]):
            if res["registered"][n] is not True:
                if res["registered"][n] == "not initialized":
                    continue
                return bad("register", "register_file_listener: %s" % res["registered"][n])
            m = self.check_file(os.path.join(d, "t.dump%d" % n), res["spans"], n)
            if isinstance(m, tuple):
                return bad(*m)
            spans += m
        labels = {}
        for f in case["fs"]:
            labels["kind:" + f["kind"]] = 1
        if case["threads"]:
            labels["threads"] = 1
        labels["exit:" + case["exit"]] = 1
        calls = sum(1 for t in a for x in t if x[0] == "call")
        return dict(status="ok", nontrivial=spans >= 1 and calls >= 3, labels=labels, sample=src[:1400])

    def check_file(self, path, want, n):
        """want: per thread the spans in the order of their end: [name, index of the parent or -1, ended after the registration of listener ..]"""
        data = open(path, "rb").read()
        ev = parse_dump(data)
        if ev is None:
            return ("file", "the file is not a valid stream")
        names, per = {}, {}
        for e in ev:
            if e[0] == "map":
                if names.setdefault(e[1], e[2]) != e[2]:
                    return ("mapping", "label %x stands for %r and %r" % (e[1], names[e[1]], e[2]))
        for e in ev:
            if e[0] == "span":
                per.setdefault(e[3], []).append(e)
        got = []
        for t, l in per.items():
            got.append([(names.get(e[4], "?%x" % e[4]), e[1], e[2]) for e in l])
        left = [w for w in want]
        total = 0
        # the main thread's spans may have started before the listener was there
        for g in sorted(got, key=len, reverse=True):
            best = None
            for w in left:
                must = [s for s in w if s[2][n]]
                if len(g) < len(must):
                    continue
                pre = len(g) - len(must)
                old = [s for s in w if not s[2][n]]
                if pre > len(old):
                    continue
                full = old[len(old) - pre:] + must
                if [s[0] for s in full] == [x[0] for x in g]:
                    best = (w, full)
                    break
            if best is None:
                return ("spans", "listener %d: the file has a thread with %d spans %s; the threads of the program made %s" % (n, len(g), [x[0][:20] for x in g][:30], [[s[0][:20] for s in w if s[2][n]][:30] for w in want]))
            left.remove(best[0])
            full = best[1]
            idx = {s[3]: i for i, s in enumerate(full)}
            for i, s in enumerate(full):
                p = idx.get(s[1])
                if p is not None and not (g[p][1] <= g[i][1] and g[i][1] + g[i][2] <= g[p][1] + g[p][2]):
                    return ("nesting", "span %r [%d, +%d] is not inside its caller's %r [%d, +%d]" % (g[i][0], g[i][1], g[i][2], g[p][0], g[p][1], g[p][2]))
            total += len(g)
        for w in left:
            must = [s[0] for s in w if s[2][n]]
            if must:
                return ("missing", "listener %d: no spans of the thread which made %s; the file has %s" % (n, must[:20], [[x[0][:20] for x in g][:30] for g in got]))
        return total

    def shrink(self, case):
        def cp():
            return copy.deepcopy(case)
        for k in ("threads", "main", "listeners"):
            for i in range(len(case[k])):
                c = cp()
                del c[k][i]
                if k == "main":
                    for l in c["listeners"]:
                        l[0] = min(l[0], len(c["main"]))
                yield c
        for i, f in enumerate(case["fs"]):
            for j in range(len(f["body"])):
                c = cp()
                del c["fs"][i]["body"][j]
                yield c
            for k, v in (("kind", "def"), ("params", []), ("name", None), ("end", ["return", "None"])):
                if f[k] != v:
                    c = cp()
                    c["fs"][i][k] = v
                    yield c
        for k, v in (("exit", "end"), ("init", "first"), ("env", None)):
            if case[k] != v:
                c = cp()
                c[k] = v
                yield c


def parse_dump(data):
    """an independent reader of the classes the bindings record"""
    pos, klasses, out = 0, {}, []

    def u(n):
        nonlocal pos
        v = int.from_bytes(data[pos:pos + n], "little")
        if pos + n > len(data):
            raise EOFError
        pos += n
        return v

    def s():
        nonlocal pos
        e = data.index(b"\0", pos)
        v = data[pos:e]
        pos = e + 1
        return v
    try:
        while pos < len(data):
            kid, ts, eid = u(4), u(8), u(8)
            if kid == 0:
                u(1)
            elif kid == 2:
                i, n, c = u(4), s(), u(1)
                klasses.setdefault(i, [n, []])
            elif kid == 3:
                i, tn, n, sz, dt = u(4), s(), s(), u(8), u(1)
                if (n, sz, dt) not in [x[:3] for x in klasses[i][1]]:
                    klasses[i][1].append((n, sz, dt, tn))
            else:
                name, fields = klasses[kid]
                v = {}

                def read(fs, v=v):
                    for n, sz, dt, tn in fs:
                        if dt == 1:
                            base = [k for k in klasses.values() if k[0] == tn]
                            if tn != b"HT_Event":
                                read(base[0][1])
                        elif dt == 2:
                            v[n] = s()
                        else:
                            v[n] = u(sz)
                read(fields)
                if name == b"HT_StringMappingEvent":
                    out.append(("map", v[b"identifier"], v[b"label"].decode()))
                elif name == b"HT_CallstackIntEvent":
                    out.append(("span", ts, v[b"duration"], v[b"thread_id"], v[b"label"]))
    except (EOFError, ValueError, KeyError, IndexError):
        return None
    return out

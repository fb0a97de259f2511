"""C18: generated source trees through the real label generator; its outputs against a model, its maps loaded by the client's map."""
import copy, json, os, re, shutil, subprocess, sys
from pycomp import PyComponent
import build as B

EXT = dict(cpp=["c", "cpp", "h", "hpp", "cc", "cxx", "hh", "hxx"], lua=["lua"])
OTHER = ["txt", "py", "md", "java", "o", "", "lu", "x", "cs", "html", "c~", "cpp.orig", "luac", "lua.bak", "hpp.txt", "C2"]


class Component(PyComponent):
    def extra_targets(self):
        return [dict(name="tpmap", variant="asan", sources=[os.path.join(B.VERIF, "harness", "tpmap.cpp")], client=True)]

    # ---- generation -----------------------------------------------------------------------------------------------------
    def gen_label(self, r):
        first = "_abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        n = r.choice([1, 1, 2, 3, 8, 40, 200]) if r.chance(1, 3) else r.randint(1, 6)
        small = r.chance(1, 2)
        return r.choice("ab_A" if small else first) + "".join(r.choice("ab_0" if small else first + "0123456789") for _ in range(n - 1))

    def gen_line(self, r, lang, labels, custom):
        ws = lambda: r.choice(["", "", " ", "\t", "    ", " \t "])
        k = r.weighted(6, 3, 3)
        l = r.choice(labels)
        if k == 0:
            if custom:
                return [["tp", l], (ws() + "TRACE_IT<%s>" % l + ws()).encode().hex()]
            if lang == "cpp":
                return [["tp", l], (ws() + "HT_TP_GLOBAL_SCOPED_INT" + ws() + "(" + l + ")" + ws() + ";" + ws()).encode().hex()]
            return [["tp", l], (ws() + "--@TracepointStart" + (ws() or " ") + l + ws()).encode().hex()]
        if k == 1:
            l = "decoy_" + l
            if lang == "cpp":
                t = r.choice(["HT_TP_GLOBAL_SCOPED_INT(1%s);", "HT_TP_GLOBAL_SCOPED_INT(%s)", "HT_TP_GLOBAL_SCOPED_STRING(%s);", "HT_TP_GLOBAL_SCOPED_INT(\"%s\");", "// HT_TP_GLOBAL_SCOPED_INT(%s);",
                              "XHT_TP_GLOBAL_SCOPED_INT(%s);", "HT_TP_GLOBAL_SCOPED_INT(%s-1);", "HT_TP_GLOBAL_SCOPED_INT();%s", "TRACE_IT%s", "--@TracepointStart %s"])
            else:
                t = r.choice(["--@TracepointStart 1%s", "--@TracepointStop %s", "--@TracepointStart%s", "-- @TracepointStart %s", "--@TracepointStart %s;", "--@TracepointStart", "HT_TP_GLOBAL_SCOPED_INT(%s);"])
            return [["no"], (t.replace("%s", l)).encode().hex()]
        n = r.choice([0, 1, 10, 80, 3000])
        return [["no"], (r.randbytes(n).replace(b"\n", b"").replace(b"\r", b"") if r.chance(1, 2) else bytes(r.choices(range(32, 127), k=n))).hex()]

    def gen_tree(self, r, labels, custom):
        files, n = [], r.choice([0, 1, 2, 4, 10]) if r.chance(1, 2) else r.randint(1, 6)
        for i in range(n):
            lang = r.choice(["cpp", "cpp", "lua"])
            ext = r.choice(OTHER) if r.chance(1, 5) else r.choice(EXT[lang])
            d = "/".join(r.choice(["a", "b", "src", "include", "x y", "ü", "lib.c", "app.hpp.d", "mod.lua"]) for _ in range(r.choice([0, 0, 1, 2, 4])))
            p = (d + "/" if d else "") + "f%d" % i + ("." + ext if ext else "")
            if r.chance(1, 12):
                files.append(dict(path=p, link=r.choice(["user@host.1234:1", "nowhere/x.c"])))
                continue
            files.append(dict(path=p, lines=[self.gen_line(r, lang, labels[lang], custom and lang == "cpp") for _ in range(r.choice([0, 1, 3, 10, 60]))], nl=r.choice(["\n", "\n", "\r\n"]),
                              last=r.chance(1, 2), bom=r.chance(1, 12)))
        return files

    def gen(self, r, index):
        runs = []
        labels = {l: [self.gen_label(r) for _ in range(r.choice([1, 3, 10, 100]))] for l in ("cpp", "lua")}
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            custom = r.chance(1, 6)
            runs.append(dict(trees=[self.gen_tree(r, labels, custom) for _ in range(r.choice([1, 1, 2]))], custom=custom, out=[l for l in ("cpp", "lua") if r.chance(9, 10)], map=r.chance(19, 20),
                             inside=r.chance(1, 8), cwd=r.chance(1, 8)))
        load = []
        for _ in range(r.randint(1, 3)):
            load.append([r.choice(["1:", "n:"]), [r.choice(list(range(len(runs))) * 3 + [-1, -2]) for _ in range(r.randint(1, 3))]])
        return dict(runs=runs, load=load, add=[[r.randint(1, 30), "added%d" % i] for i in range(r.choice([0, 0, 2]))], ask=[r.u64any() for _ in range(r.randint(0, 4))] + [0, 1, 2, 3])

    # ---- execution ------------------------------------------------------------------------------------------------------
    def expected(self, run, lang):
        out = set()
        if lang in run["out"]:
            for f in run["trees"][0 if lang == "cpp" else -1]:
                if "lines" in f and os.path.splitext(f["path"])[1][1:] in EXT[lang]:
                    for k, h in f["lines"]:
                        if k[0] == "tp" and self.lang_of(h) == (lang, run["custom"] and lang == "cpp"):
                            out.add(k[1])
        return out

    def lang_of(self, h):
        t = bytes.fromhex(h)
        return ("lua", False) if b"@Tracepoint" in t else ("cpp", b"TRACE_IT" in t)

    def run_case(self, case, d):
        maps, n, res = {}, 0, []
        for i, run in enumerate(case["runs"]):
            w = os.path.join(d, "run%d" % i)
            shutil.rmtree(w, ignore_errors=True)
            roots = []
            for j, t in enumerate(run["trees"]):
                root = os.path.join(w, "tree%d" % j)
                roots.append(root)
                os.makedirs(root)
                for f in t:
                    p = os.path.join(root, f["path"])
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    if "link" in f:
                        os.symlink(f["link"], p)
                        continue
                    nl = f["nl"].encode()
                    data = nl.join(bytes.fromhex(h) for _, h in f["lines"])
                    open(p, "wb").write((b"\xef\xbb\xbf" + nl if f["bom"] else b"") + data + (nl if f["last"] else b""))
            outs = {l: os.path.join(roots[0] if run["inside"] else w, "labels.h" if l == "cpp" else "labels.lua") for l in run["out"]}
            mp = os.path.join(w, "out.map")
            cmd = [sys.executable, os.path.join(B.REPO, "tools", "generate_tracepoint_labels.py")]
            for l, root in (("cpp", roots[0]), ("lua", roots[-1])):
                if not (run["cwd"] and root == roots[0]):
                    cmd += ["--search-%s-dir" % l, root]
                if l in outs:
                    cmd += ["--out-%s-file" % l, outs[l]]
            if run["custom"]:
                cmd += ["--cpp-regex", r"^\s*TRACE_IT<([^>]*)>\s*$"]
            if run["map"]:
                cmd += ["--output-map", mp]
            p = subprocess.run(cmd, cwd=roots[0] if run["cwd"] else w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8"), timeout=60)
            if p.returncode:
                return dict(status="fail", key="tool-fails", msg="the label generator ends with status %d: %s" % (p.returncode, p.stdout[-600:].decode("utf8", "replace")), sample=json.dumps(case)[:2000])
            r = self.check_run(run, outs, mp, maps, i)
            if r:
                return dict(status="fail", key=r[0], msg=r[1], sample=json.dumps(case)[:2000])
            n += sum(len(self.expected(run, l)) for l in ("cpp", "lua"))
        r = self.check_load(case, d, maps)
        if r:
            return dict(status="fail", key=r[0], msg=r[1], sample=json.dumps(case)[:2000])
        for i in range(len(case["runs"])):
            shutil.rmtree(os.path.join(d, "run%d" % i), ignore_errors=True)
        return dict(status="ok", nontrivial=n >= 2, labels=dict(runs=len(case["runs"]), labels=n, maps=len(maps)), sample="%d runs, %d labels, loaded %s" % (len(case["runs"]), n, case["load"]))

    def check_run(self, run, outs, mp, maps, i):
        got = {}
        for l, p in outs.items():
            try:
                t = open(p).read()
            except OSError as e:
                return ("no-output", "no %s output: %s" % (l, e))
            if l == "cpp":
                got[l] = [(a, int(b)) for a, b in re.findall(r"^#define hawktracer_autogen_tracepoint_label_(\w+) (\d+)$", t, re.M)]
                rest = re.sub(r"^#(define hawktracer_autogen_tracepoint_label_\w+ \d+|ifndef \w+|define \w+|endif.*)$", "", t, flags=re.M).strip()
            else:
                m = re.fullmatch(r"local (\w+(?:,\w+)*) = (\d+(?:,\d+)*)\n", t)
                a, b = (m.group(1).split(","), m.group(2).split(",")) if m else ([], [])
                if len(a) != len(b):
                    return ("lua", "%d names and %d numbers in the LUA file" % (len(a), len(b)))
                got[l] = list(zip(a, map(int, b)))
                rest = "" if m else t.strip()
            if rest:
                return ("syntax", "unexpected text in the %s output: %r" % (l, rest[:300]))
            want = self.expected(run, l)
            if set(a for a, _ in got[l]) != want or len(got[l]) != len(want):
                return ("labels", "%s labels: missing %s, unexpected %s, %d entries for %d labels" % (l, sorted(want - set(a for a, _ in got[l]))[:3], sorted(set(a for a, _ in got[l]) - want)[:3], len(got[l]), len(want)))
        nums = [b for g in got.values() for _, b in g]
        if len(set(nums)) != len(nums) or any(b <= 0 for b in nums):
            return ("numbers", "numbers are not distinct: %s" % sorted(nums)[:50])
        if run["map"]:
            want = {(l, a, b) for l, g in got.items() for a, b in g}
            have = [tuple(x.split(" ")) for x in open(mp).read().split("\n")[:-1]]
            if any(len(x) != 3 for x in have) or {(a, b, int(c)) for a, b, c in have} != want or len(have) != len(want):
                return ("map", "map %s differs from the generated files %s" % (sorted(have)[:6], sorted(want)[:6]))
            maps[i] = {b: (a, l) for l, a, b in want}
        return None

    def check_load(self, case, d, maps):
        model, args, loads = {}, [], []
        for kind, ms in case["load"]:
            files = [os.path.join(d, "run%d" % m, "out.map") if m >= 0 else os.path.join(d, "missing.map") if m == -1 else "" for m in ms]
            if kind == "1:":
                files, ms = files[:1], ms[:1]
                loads.append(int(ms[0] in maps))
            args.append(kind + ",".join(files))
            for m in ms:
                model.update(maps.get(m, {}))
        ask, inp = [], ""
        for i in sorted(set(list(model) + case["ask"])):
            ask.append(model.get(i, (str(i), None)))
            inp += "? %d\n" % i
        for i, l in case["add"]:
            inp += "+ %d %s\n? %d\n" % (i, l, i)
            ask.append((l, None))
        p = subprocess.run([os.path.join(B.BUILD, "asan", "tpmap")] + args, input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:symbolize=0:exitcode=99"))
        if p.returncode:
            return ("load-crash", "loading %s ends with status %d: %s" % (args, p.returncode, p.stderr[-500:].decode("utf8", "replace")))
        out = p.stdout.decode("utf8", "replace").split("\n")[:-1]
        if [int(x) for x in out[:len(loads)]] != loads:
            return ("load-result", "load_map reports %s, expected %s for %s" % (out[:len(loads)], loads, args))
        for g, (l, c) in zip(out[len(loads):], ask):
            a = g.split("\t")
            if len(a) != 2 or a[0] != l or (c and a[1] != c):
                return ("resolve", "resolved to %s, expected label %s category %s (maps %s)" % (a, l, c, args))
        if len(out) - len(loads) != len(ask):
            return ("resolve", "%d answers to %d questions" % (len(out) - len(loads), len(ask)))
        return None

    def shrink(self, case):
        for i in range(len(case["runs"])):
            if len(case["runs"]) > 1 and i == len(case["runs"]) - 1:
                c = copy.deepcopy(case)
                del c["runs"][i]
                c["load"] = [[k, [m for m in ms if m < i] or [-1]] for k, ms in c["load"]]
                yield c
            for j, t in enumerate(case["runs"][i]["trees"]):
                for k in range(len(t)):
                    c = copy.deepcopy(case)
                    del c["runs"][i]["trees"][j][k]
                    yield c
                for k, f in enumerate(t):
                    n = len(f.get("lines", []))
                    step = n
                    while step >= 1:
                        for q in range(0, n, step):
                            c = copy.deepcopy(case)
                            del c["runs"][i]["trees"][j][k]["lines"][q:q + step]
                            yield c
                        step //= 2
        for k in ("add", "ask", "load"):
            for i in range(len(case[k])):
                c = copy.deepcopy(case)
                del c[k][i]
                if c["load"]:
                    yield c

"""C25: the single-file library generated by tools/amalgamate.py, in generated configurations, directory orders, languages, compilers and
standards, used by a generated program of two translation units (one declares event classes, the other traces); output against the models."""
import json, os, shutil, struct, subprocess, sys, threading
import klassgen
import build as B

# Runs the tool with the entries of directories in a generated order (the order of os.scandir is unspecified; it differs between file systems).
RUN = r'''
import os, random, runpy, sys
r = random.Random(int(sys.argv[1]))
class It:
    def __init__(self, l): self.l = iter(l)
    def __iter__(self): return self
    def __next__(self): return next(self.l)
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
def wrap(f, w):
    def g(*a, **k):
        l = sorted(f(*a, **k), key=lambda e: getattr(e, "name", e)); r.shuffle(l)
        return w(l)
    return g
if sys.argv[1] != "0":
    os.scandir = wrap(os.scandir, It); os.listdir = wrap(os.listdir, list)
sys.argv = sys.argv[2:]
runpy.run_path(sys.argv[0], run_name="__main__")
'''
STD = {"c": ["gnu99", "gnu11", "gnu17"], "cpp": ["c++11", "c++14", "c++17"]}
ALL = ["HT_PLATFORM_FEATURE_CPU_USAGE_ENABLED", "HT_PLATFORM_FEATURE_MEMORY_USAGE_ENABLED", "HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED", "HT_USE_PTHREADS", "HT_ENABLE_TCP_LISTENER", "HT_ENABLE_THREADS"]
HDR = struct.calcsize("<IQQ")


class Component(klassgen.Component):
    PROBES = {}

    def extra_targets(self):
        return []

    def gen(self, r, index):
        case = klassgen.Component.gen(self, r, index)
        case["klasses"] = case["klasses"][:r.randint(1, 4)]
        names = {k["name"] for k in case["klasses"]}
        case["inst"] = [i for i in case["inst"] if i["k"] in names][:6]
        case["split"] = False
        case["lib"] = dict(lang=r.choice(["c", "cpp"]), compiler=case["compiler"], order=r.randint(0, 1 << 30) if r.chance(3, 4) else 0)
        case["lib"]["std"] = r.choice(STD[case["lib"]["lang"]])
        if r.chance(1, 2):
            case["lang"], case["std"] = case["lib"]["lang"], r.choice(STD[case["lib"]["lang"]])
        threads = r.chance(4, 5)
        feats = [f for f in ALL[:2] if r.chance(4, 5)] + ([ALL[2]] if r.chance(1, 8) else [])
        if threads:
            feats += ["HT_ENABLE_THREADS"] + [f for f in ALL[3:5] if r.chance(4, 5)]
        case["feats"] = feats
        case["parallel"] = r.chance(1, 6)
        static = case["lang"] == "cpp" or "HT_USE_PTHREADS" in feats
        kinds = ["string", "int", "dyn"] + (["static", "function", "opt_static", "opt_function", "function2"] if static else ["function2"])
        case["tp"] = [[r.choice(kinds), r.choice(["a", "bb", "some label", "x" * 40, "%d %s", "l%d" % r.randint(0, 3)]), r.u64any()] for _ in range(r.randint(1, 8))]
        case["runs"] = r.randint(1, 3)
        return case

    # ---- program ----------------------------------------------------------------------------------------------------
    def other(self, case):
        o = ["#include \"hawktracer.h\"", "HT_DECLS_BEGIN", "void traced(HT_Timeline* timeline);", "HT_DECLS_END", "void traced(HT_Timeline* timeline)", "{"]
        for k, l, n in case["tp"]:
            o.append({"string": '    HT_TP_SCOPED_STRING(timeline, "%s");' % l, "int": "    HT_TP_SCOPED_INT(timeline, %dULL);" % n, "dyn": '    HT_TP_DYN_STRACEPOINT(timeline, "%s");' % l,
                      "static": '    HT_TP_STRACEPOINT(timeline, "%s");' % l, "opt_static": '    HT_TRACE_OPT_STATIC(timeline, "%s");' % l, "function": "    HT_TP_FUNCTION(timeline);",
                      "opt_function": "    HT_TRACE_FUNCTION_OPT(timeline);", "function2": "    HT_TRACE_FUNCTION(timeline);"}[k])
        o.append("}")
        return "\n".join(o) + "\n"

    def files(self, case):
        f = klassgen.Component.program(self, case)
        out = {}
        for n, t in f.items():
            ls = t.split("\n")
            first = next(i for i, l in enumerate(ls) if l.startswith("#include <hawktracer")) if any(l.startswith("#include <hawktracer") for l in ls) else None
            if first is not None:
                ls[first] = "#include \"hawktracer.h\""
            out[n] = "\n".join(l for l in ls if not l.startswith("#include <hawktracer"))
        m = "main." + case["lang"]
        end = "  ht_timeline_destroy(tl); ht_deinit(); return 0; }"
        assert end in out[m]
        out[m] = out[m].replace(end,
                                '  ht_timeline_destroy(tl);\n  printf("T %u %u %u\\n", (unsigned)HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id, (unsigned)HT_EVENT_KLASS_GET(HT_CallstackStringEvent)->klass_id, (unsigned)HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id);\n'
                                '  tl = ht_timeline_create(8192, HT_FALSE, HT_TRUE, NULL, &err); ht_feature_callstack_enable(tl); ht_feature_cached_string_enable(tl, HT_FALSE); ht_timeline_register_listener(tl, cb, NULL);\n'
                                '  ' + "traced(tl); " * case["runs"] + '\n  ht_timeline_flush(tl); ht_timeline_destroy(tl); printf("E\\n"); ht_deinit(); return 0; }')
        out[m] = out[m].replace("int main(void)", "HT_DECLS_BEGIN\nvoid traced(HT_Timeline* timeline);\nHT_DECLS_END\nint main(void)")
        out["other." + case["lang"]] = self.other(case)
        return out

    # ---- generation of the library ------------------------------------------------------------------------------------
    def config(self, case, path):
        v = dict(feats=case["feats"], cfg="")
        saved = B.VARIANTS.get("amalgprog"), B.BUILD
        B.VARIANTS["amalgprog"], B.BUILD = v, path
        try:
            B.gen_config("amalgprog")
        finally:
            B.BUILD = saved[1]
        return os.path.join(path, "amalgprog/include/hawktracer/ht_config.h")

    def tool(self, case, cfg, out, lang):
        return subprocess.Popen([sys.executable, "-W", "ignore", "-c", RUN, str(case["lib"]["order"]), os.path.join(B.REPO, "tools/amalgamate.py"), "--root-dir", B.REPO, "--out-dir", out,
                                 "--config-path", cfg] + (["--cpp"] if lang == "cpp" else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def generate(self, case, w):
        cfg = self.config(case, os.path.join(w, "cfg"))
        p = self.tool(case, cfg, w, case["lib"]["lang"])
        o = p.communicate(timeout=60)[0]
        if p.returncode:
            return ("not-generated", "the single-file library is not generated: " + o[-800:].decode("utf8", "replace"))
        if not case["parallel"]:
            return None
        # both versions are generated into one directory at once while a compiler may read it: every file is complete at any time
        good = {f: {open(os.path.join(w, f), "rb").read()} for f in ("hawktracer.h", "ht_config.h")}
        ps = [self.tool(case, cfg, w, l) for l in ("c", "cpp", "c", "cpp")]
        seen = 0
        while any(p.poll() is None for p in ps):
            for f in good:
                try:
                    b = open(os.path.join(w, f), "rb").read()
                except OSError:
                    b = None
                seen += 1
                if b not in good[f]:
                    for p in ps:
                        p.communicate()
                    return ("incomplete", "%s is incomplete (%s of %d bytes) while the library is being generated again" % (f, "missing" if b is None else len(b), len(next(iter(good[f])))))
        rc = [p.wait() for p in ps]
        for p in ps:
            p.stdout.close()
        if any(rc):
            return ("not-generated", "generating the C and the C++ version at once fails: %s" % rc)
        left = [f for f in os.listdir(w) if f not in ("hawktracer.h", "hawktracer.c", "hawktracer.cpp", "ht_config.h", "cfg")]
        if left:
            return ("leftover", "files left behind: %s" % left[:5])
        for f in good:
            if open(os.path.join(w, f), "rb").read() not in good[f]:
                return ("incomplete", "%s differs after generating it again" % f)
        return None

    def run_case(self, case, d):
        w = os.path.join(d, "prog")
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        desc = json.dumps({k: case[k] for k in ("lib", "lang", "compiler", "std", "feats", "tp", "parallel")})
        r = self.generate(case, w)
        if r:
            return dict(status="fail", key=r[0], msg=r[1], sample=desc)
        cc = {("gcc", "c"): B.GCC, ("gcc", "cpp"): B.GXX, ("clang", "c"): B.CC, ("clang", "cpp"): B.CXX}
        for n, t in self.files(case).items():
            open(os.path.join(w, n), "w").write(t)
        objs, jobs = [], []
        for s, lang, std in [("main." + case["lang"], case["lang"], case["std"]), ("other." + case["lang"], case["lang"], case["std"]),
                             ("hawktracer." + case["lib"]["lang"], case["lib"]["lang"], case["lib"]["std"])]:
            p = subprocess.Popen([cc[case["compiler"], lang], "-std=" + std, "-w", case["opt"], "-I.", "-c", s, "-o", s + ".o"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            jobs.append((s, p))
            objs.append(s + ".o")
        for s, p in jobs:
            o = p.communicate()[0]
            if p.returncode:
                for _, q in jobs:
                    q.wait()
                return dict(status="fail", key="does-not-compile", msg="%s does not compile: %s" % (s, o[:1200]), sample=desc)
        p = subprocess.run([B.GXX if "cpp" in (case["lang"], case["lib"]["lang"]) else B.GCC, "-o", "prog"] + objs + ["-lpthread", "-ldl"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return dict(status="fail", key="does-not-link", msg="the program and the single-file library do not link: " + p.stdout[:1200], sample=desc)
        try:
            p = subprocess.run(["./prog"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
        except subprocess.TimeoutExpired:
            return dict(status="fail", key="hang", msg="the program does not end", sample=desc)
        if p.returncode:
            return dict(status="fail", key="crash", msg="the program ends with status %d: %s" % (p.returncode, p.stderr[-500:].decode("utf8", "replace")), sample=desc)
        out = p.stdout.decode("latin1")
        try:
            r = self.judge(case, out) or self.judge_trace(case, out)
        except (ValueError, IndexError, struct.error) as e:
            r = ("output", "output cannot be understood (%s): %s" % (e, out[-500:]))
        shutil.rmtree(w, ignore_errors=True)
        if r:
            return dict(status="fail", key=r[0], msg=r[1], sample=desc + " " + json.dumps(case["klasses"])[:800])
        return dict(status="ok", nontrivial=len(case["tp"]) >= 2 and len(case["inst"]) >= 2,
                    labels={"lib-" + case["lib"]["lang"]: 1, "user-" + case["lang"]: 1, "no-threads": "HT_ENABLE_THREADS" not in case["feats"], "parallel": int(case["parallel"]), "shuffled": case["lib"]["order"] != 0}, sample=desc)

    def judge_trace(self, case, out):
        ls = out.split("\n")
        i = max(n for n, l in enumerate(ls) if l.startswith("T "))
        kint, kstr, kmap = map(int, ls[i][2:].split())
        if "E" not in ls[i:]:
            return ("output", "the program did not finish")
        b = b"".join(bytes.fromhex(l.split(" ")[2]) for l in ls[i + 1:] if l.startswith("P "))
        ids, o, exp, spans = {}, 0, [], []
        for _ in range(case["runs"]):
            exp += [self.label(t) for t in reversed(case["tp"])]
        while o < len(b):
            k, ts, eid = struct.unpack_from("<IQQ", b, o)
            o += HDR
            if k == kmap:
                x = struct.unpack_from("<Q", b, o)[0]
                e = b.index(0, o + 8)
                if x in ids and ids[x] == b[o + 8:e]:
                    return ("trace", "label '%s' is announced twice" % b[o + 8:e].decode("latin1"))
                ids[x] = b[o + 8:e]
                o = e + 1
            elif k in (kint, kstr):
                dur, tid = struct.unpack_from("<QI", b, o)
                o += 12
                if k == kint:
                    x = struct.unpack_from("<Q", b, o)[0]
                    o += 8
                    spans.append(("id", x, ids.get(x)))
                else:
                    e = b.index(0, o)
                    spans.append(("string", None, b[o:e]))
                    o = e + 1
                if not tid or dur > 60 * 10**9:
                    return ("trace", "span with thread id %d and duration %d" % (tid, dur))
            else:
                return ("trace", "unexpected event of class %d" % k)
        if len(spans) != len(exp):
            return ("trace", "%d spans for %d tracepoints" % (len(spans), len(exp)))
        for n, ((kind, x, l), (ek, ev)) in enumerate(zip(spans, exp)):
            if (ek == "int" and (kind != "id" or x != ev)) or (ek == "string" and (kind != "string" or l != ev)) or (ek == "cached" and (kind != "id" or l != ev)):
                return ("trace", "span %d is %s %s '%s', expected %s %s" % (n, kind, x, l, ek, ev))
        return None

    def label(self, t):
        k, l, n = t
        if k == "int":
            return ("int", n)
        if k == "string":
            return ("string", l.encode())
        if k == "function2":
            return ("string", b"traced")
        return ("cached", b"traced" if k in ("function", "opt_function") else l.encode())

    def shrink(self, case):
        for c in klassgen.Component.shrink(self, case):
            yield c
        for i in range(len(case["tp"])):
            if len(case["tp"]) > 1:
                yield dict(case, tp=case["tp"][:i] + case["tp"][i + 1:])
        if case["lib"]["order"]:
            yield dict(case, lib=dict(case["lib"], order=0))
        if case["runs"] > 1:
            yield dict(case, runs=1)

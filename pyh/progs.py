"""C26: generated programs of several translation units that include the public headers in any selection and order, in C and C++ of several standards,
with both compilers, linked with the shared or the static library; tracepoints in nested blocks, loops, early returns, exceptions and calls across
the units, on one or two threads. The streams are compared with a simulation of the program."""
import copy, glob, json, os, shutil, struct, subprocess
from pycomp import PyComponent
import build as B

CSTD = ["gnu89", "gnu99", "c99", "c11", "gnu17", "c17"]
XSTD = ["c++11", "gnu++11", "c++14", "c++17", "c++20"]
HDR = struct.calcsize("<IQQ")
MASK = (1 << 64) - 1
FTYPES = {"uint8_t": 1, "int16_t": 2, "uint32_t": 4, "int64_t": 8, "uint64_t": 8}
LABELS = ["a", "bb", "some label", "x" * 40, "%d %s", "l0", "l1", "l2", "__LINE__", ""]
# header -> what a translation unit needs it for
NEED = dict(base="hawktracer/timeline.h", scoped="hawktracer/scoped_tracepoint.h", tp="hawktracer/tracepoint.h", stp="hawktracer/string_scoped_tracepoint.h", glob="hawktracer/global_timeline.h",
            dur="hawktracer/duration_conversion.h", init="hawktracer/init.h", feat="hawktracer/feature_callstack.h", feat2="hawktracer/feature_cached_string.h", core="hawktracer/core_events.h")
DUR = {"HT_DUR_NS": 1, "HT_DUR_US": 10**3, "HT_DUR_MS": 10**6, "HT_DUR_S": 10**9}


def headers(cpp):
    """every public header, relative to its include directory"""
    out = []
    for r, pats in (("lib/include", ("hawktracer.h", "hawktracer/*.h", "hawktracer/*/*.h")), ("parser/include", ("hawktracer/**/*.hpp",)), ("client_utils/include", ("hawktracer/**/*.hpp",)),
                    ("lib/include ", ("hawktracer/*.hpp",))):
        if not cpp and (r != "lib/include"):
            continue
        base = os.path.join(B.REPO, r.strip())
        for p in pats:
            out += [os.path.relpath(f, base) for f in glob.glob(os.path.join(base, p), recursive=True)]
    return sorted(set(o for o in out if not o.endswith("event_macros_impl.h")))


class Component(PyComponent):
    PROBES = {}

    def extra_targets(self):
        return [dict(name="progs_dummy", variant="plain", sources=[os.path.join(B.VERIF, "harness", "dummy.cpp")])]

    def prepare(self, scratch):
        self.so = os.path.join(B.BUILD, "plain", "libhawktracer_shared.so")
        a = os.path.join(B.BUILD, "plain", "libhawktracer.a")
        p = subprocess.run([B.GXX, "-shared", "-o", self.so + ".tmp%d" % os.getpid(), "-Wl,--whole-archive", a, "-Wl,--no-whole-archive", "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("shared library: " + p.stdout[-800:])
        os.rename(self.so + ".tmp%d" % os.getpid(), self.so)

    # ---- generation -------------------------------------------------------------------------------------------------
    def gen(self, r, index):
        conly = r.chance(1, 3)
        tus = []
        for i in range(r.randint(1, 4)):
            cpp = not conly and r.chance(1, 2)
            hs = headers(cpp)
            k = r.weighted(2, 2, 1)
            sel = [r.choice(hs)] if k == 0 else r.sample(hs, r.randint(0, len(hs))) if k == 1 else ["hawktracer.h"]
            tus.append(dict(cpp=cpp, std=r.choice(XSTD if cpp else CSTD), opt=r.choice(["-O0", "-O2", "-O1", "-O3"]), cc=r.choice(["gcc", "clang"]), headers=sel, dup=r.chance(1, 4), pos=r.getrandbits(30)))
        klasses = []
        for i in range(r.randint(0, 3)):
            fs = [[r.choice(list(FTYPES)), "f%d" % j] if r.chance(3, 4) else ["const char*", "f%d" % j] for j in range(r.randint(1, 5))]
            klasses.append(dict(name="Ev%d" % i, deep=r.chance(1, 3), fields=fs))
        nf = r.randint(1, 6)
        self.budget = 40
        funcs = []
        for i in range(nf):
            tu = r.randrange(len(tus))
            cpp = tus[tu]["cpp"]
            shape = r.choice(["plain", "plain", "method", "template", "lambda", "static", "inline"]) if cpp else r.choice(["plain", "plain", "static"])
            funcs.append(dict(tu=tu, shape=shape, body=[]))
        case = dict(tus=tus, klasses=klasses, funcs=funcs, impl=r.randrange(len(tus)), link=r.choice(["static", "shared"]), rounds=r.randint(1, 3), threads=r.weighted(3, 1, 1), cap=r.choice([1, 64, 1024, 8192]), clash=r.chance(1, 3), gcap=r.choice([None, None, 1, 100, 4096]))
        for i in range(nf - 1, -1, -1):
            funcs[i]["body"] = self.gen_body(r, case, i, 0, False, False)
        return case

    def gen_body(self, r, case, fi, depth, loop, tr):
        out = []
        cpp = case["tus"][case["funcs"][fi]["tu"]]["cpp"]
        for _ in range(r.randint(1, 5 if depth == 0 else 3)):
            if self.budget <= 0:
                break
            self.budget -= 1
            k = r.weighted(10, 3, 3, 2 if fi + 1 < len(case["funcs"]) else 0, 1, 2 if case["klasses"] else 0, 1, 2 if cpp else 0, 2 if loop else 0, 2 if tr else 0, 2)
            if k == 0:
                kinds = ["int", "string", "dyn", "trace", "trace_dyn", "trace_fn", "static", "function", "trace_static", "trace_fn_opt"]
                out.append(["tp", r.choice(kinds), r.chance(1, 3), r.choice(LABELS), r.u64any(), r.chance(1, 4)])
            elif k == 1 and depth < 4:
                out.append(["block", self.gen_body(r, case, fi, depth + 1, loop, tr)])
            elif k == 2 and depth < 3:
                out.append(["loop", r.randint(0, 3), self.gen_body(r, case, fi, depth + 1, True, tr)])
            elif k == 3:
                out.append(["call", r.randint(fi + 1, len(case["funcs"]) - 1)])
            elif k == 4:
                out.append(["retif", r.randrange(3)])
            elif k == 5:
                q = r.randrange(len(case["klasses"]))
                vs = [r.getrandbits(8 * FTYPES[t]) if t in FTYPES else r.choice([None] + LABELS) for t, _ in case["klasses"][q]["fields"]]
                out.append(["push", q, vs, r.chance(1, 2), r.chance(1, 3), r.getrandbits(30), r.chance(1, 4)])
            elif k == 6:
                a, b = r.randint(0, 4000), r.randint(0, 4000)
                out.append(["dur", r.choice(list(DUR)), r.choice(["%d", "%du", "%dL", "%dULL"]) % a, a, r.choice(["lit", "sum", "cond", "var", "cmp"]), b])
            elif k == 7 and depth < 3:
                out.append(["try", self.gen_body(r, case, fi, depth + 1, False, True)])
            elif k == 8:
                out.append(["brkif", r.choice(["break", "continue"]), r.randrange(3)])
            elif k == 9:
                out.append(["throwif", r.randrange(3)])
            elif k == 10 and depth < 3:
                out.append(["goto", r.randrange(3), self.gen_body(r, case, fi, depth + 1, loop, tr), self.gen_body(r, case, fi, depth + 1, loop, tr)])
        return out

    # ---- program ----------------------------------------------------------------------------------------------------
    def fname(self, case, i):
        s = case["funcs"][i]["shape"]
        return {"method": "method%d" % i, "template": "tmpl%d" % i, "lambda": "operator()", "static": "local%d" % i, "inline": "inl%d" % i}.get(s, "f%d" % i)

    def cstr(self, s):
        return '"%s"' % s

    def emit(self, case, fi, body, o, ind, st):
        f = case["funcs"][fi]
        for s in body:
            p = "    " * ind
            if s[0] == "tp":
                _, kind, glob, label, num, side = s
                t = "ht_global_timeline_get()" if glob else "tl"
                if side and not glob:
                    t = "pick(tl)"
                st["need"].update(["tp", "stp", "scoped", "glob"])
                g = glob and not num & 1
                L = self.cstr(label)
                args = "%s" if g else t + ", %s"
                if kind == "int":
                    o.append(p + ("HT_TP_GLOBAL_SCOPED_INT(%s);" if g else "HT_TP_SCOPED_INT(" + args + ");") % (("side(%dULL)" if side else "%dULL") % num))
                elif kind == "string":
                    o.append(p + ("HT_TP_GLOBAL_SCOPED_STRING(%s);" if g else "HT_TP_SCOPED_STRING(" + args + ");") % (("sides(%s, (int)round)" if side else "%s") % L))
                elif kind == "trace":
                    o.append(p + ("HT_G_TRACE(%s);" if g else "HT_TRACE(" + args + ");") % (("sides(%s, (int)round)" if side else "%s") % L))
                elif kind == "dyn":
                    o.append(p + ("HT_TP_G_DYN_STRACEPOINT(%s);" if g else "HT_TP_DYN_STRACEPOINT(" + args + ");") % (("sides(%s, (int)round)" if side else "%s") % L))
                elif kind == "trace_dyn":
                    o.append(p + ("HT_G_TRACE_OPT_DYNAMIC(%s);" if g else "HT_TRACE_OPT_DYNAMIC(" + args + ");") % (("sides(%s, (int)round)" if side else "%s") % L))
                elif kind == "static":
                    o.append(p + ("HT_TP_G_STRACEPOINT(%s);" if g else "HT_TP_STRACEPOINT(" + args + ");") % L)
                elif kind == "trace_static":
                    o.append(p + ("HT_G_TRACE_OPT_STATIC(%s);" if g else "HT_TRACE_OPT_STATIC(" + args + ");") % L)
                elif kind == "function":
                    o.append(p + ("HT_TP_G_FUNCTION();" if g else "HT_TP_FUNCTION(%s);" % t))
                elif kind == "trace_fn_opt":
                    o.append(p + ("HT_G_TRACE_FUNCTION();" if g else "HT_TRACE_FUNCTION_OPT(%s);" % t))
                else:
                    o.append(p + "HT_TRACE_FUNCTION(%s);" % ("ht_global_timeline_get()" if glob else t))
            elif s[0] == "block":
                o.append(p + "{")
                self.emit(case, fi, s[1], o, ind + 1, st)
                o.append(p + "}")
            elif s[0] == "loop":
                v = "i%d" % st["n"]
                st["n"] += 1
                o.append(p + "{ int %s; for (%s = 0; %s < %d; %s++)" % (v, v, v, s[1], v))
                o.append(p + "{")
                st["loops"].append(v)
                self.emit(case, fi, s[2], o, ind + 1, st)
                st["loops"].pop()
                o.append(p + "} }")
            elif s[0] == "call":
                o.append(p + "f%d(tl, round);" % s[1])
            elif s[0] == "retif":
                o.append(p + "if (round == %d) return;" % s[1])
            elif s[0] == "brkif":
                o.append(p + "if (%s == %d) %s;" % (st["loops"][-1], s[2], s[1]))
            elif s[0] == "push":
                k = case["klasses"][s[1]]
                vs = []
                names = ["ev", "klass", "timestamp", "id", "event", "base"]
                n = st["n"]
                st["n"] += 1
                pre, post = "", ""
                for j, ((ty, _), x) in enumerate(zip(k["fields"], s[2])):
                    e = ("(%s)%dULL" % (ty, x)) if ty in FTYPES else ("(const char*)0" if x is None else self.cstr(x))
                    if case["clash"] and j == 0:
                        # a variable of the caller with an everyday name
                        nm = names[s[5] % len(names)]
                        pre, e = "%s { %s %s = %s; " % (pre, ty, nm, e), nm
                        post = " }"
                    elif ty == "uint64_t":
                        e = "side(%dULL)" % x
                    vs.append(e)
                t = "ht_global_timeline_get()" if s[4] else "pick(tl)" if s[6] else "tl"
                if s[4]:
                    st["need"].add("glob")
                if s[3]:
                    b = "{ ht_base_event, 7, 9 }" if k["deep"] else "ht_base_event"
                    st["pedantic"].append(len(o) + 1)
                    o.append(p + "%sHT_TIMELINE_PUSH_EVENT_PEDANTIC(%s, %s, %s, %s);%s" % (pre, t, k["name"], b, ", ".join(vs), post))
                else:
                    b = "7, 9, " if k["deep"] else ""
                    o.append(p + "%sHT_TIMELINE_PUSH_EVENT(%s, %s, %s%s);%s" % (pre, t, k["name"], b, ", ".join(vs), post))
            elif s[0] == "dur":
                _, m, lit, a, form, b = s
                st["need"].add("dur")
                n = st["n"]
                st["n"] += 1
                if form == "lit":
                    e = "%s(%s)" % (m, lit)
                elif form == "sum":
                    e = "%s(%s + %d)" % (m, lit, b)
                elif form == "cond":
                    e = "%s(round >= 0 ? %s : %d)" % (m, lit, b)
                elif form == "cmp":
                    e = "%s(%s | %d) / 10" % (m, lit, b)
                else:
                    e = "%s(v%d)" % (m, n)
                o.append(p + "{ HT_DurationNs v%d = %s; HT_DurationNs w = %s; (void)v%d; durval(%d, w); }" % (n, lit, e, n, st["durs"]))
                st["durs"] += 1
                st["durvals"].append(s)
            elif s[0] == "try":
                o.append(p + "try {")
                self.emit(case, fi, s[1], o, ind + 1, st)
                o.append(p + "} catch (int) { }")
            elif s[0] == "throwif":
                o.append(p + "if (round == %d) throw 1;" % s[1])
            elif s[0] == "goto":
                n = st["n"]
                st["n"] += 1
                o.append(p + "{")
                self.emit(case, fi, s[2], o, ind + 1, st)
                o.append(p + "    if (round == %d) goto out%d;" % (s[1], n))
                o.append(p + "    {")
                self.emit(case, fi, s[3], o, ind + 2, st)
                o.append(p + "    }")
                o.append(p + "}")
                o.append(p + "out%d: ;" % n)

    def function(self, case, i, st):
        f = case["funcs"][i]
        st.update(n=0, loops=[])
        body = []
        self.emit(case, i, f["body"], body, 1 if f["shape"] != "method" else 2, st)
        un = "    (void)tl; (void)round;"
        s = f["shape"]
        if s == "plain":
            return ["void f%d(HT_Timeline* tl, int round)" % i, "{", un] + body + ["}"], 3
        if s in ("static", "inline"):
            n = self.fname(case, i)
            return ["static%s void %s(HT_Timeline* tl, int round)" % (" inline" if s == "inline" else "", n), "{", un] + body + ["}", "void f%d(HT_Timeline* tl, int round) { %s(tl, round); }" % (i, n)], 3
        if s == "method":
            return ["namespace ns%d { class Cls { public: void method%d(HT_Timeline* tl, int round) const;" % (i, i), "}; }", "void ns%d::Cls::method%d(HT_Timeline* tl, int round) const" % (i, i), "{", un] + body + \
                   ["}", "void f%d(HT_Timeline* tl, int round) { ns%d::Cls().method%d(tl, round); }" % (i, i, i)], 5
        if s == "template":
            return ["template<class T> static void tmpl%d(HT_Timeline* tl, T round)" % i, "{", un] + body + ["}", "void f%d(HT_Timeline* tl, int round) { tmpl%d<int>(tl, round); tmpl%d<long>(tl, round); }" % (i, i, i)], 3
        return ["void f%d(HT_Timeline* tl, int round) { auto fn = [](HT_Timeline* tl, int round)" % i, "{", un] + body + ["};", "fn(tl, round); }"], 3

    def program(self, case):
        files, ped = {}, {}
        st0 = dict(durs=0, durvals=[])
        common = ["#ifndef COMMON_H", "#define COMMON_H", "#include <hawktracer/timeline.h>", "#include <hawktracer/core_events.h>", "HT_DECLS_BEGIN"]
        for k in case["klasses"]:
            common.append("HT_DECLARE_EVENT_KLASS(%s, %s, %s)" % (k["name"], "HT_CallstackBaseEvent" if k["deep"] else "HT_Event", ", ".join("(%s, %s, %s)" % ("STRING" if t == "const char*" else "INTEGER", t, n) for t, n in k["fields"])))
        for i in range(len(case["funcs"])):
            common.append("void f%d(HT_Timeline* tl, int round);" % i)
        common += ["HT_Timeline* pick(HT_Timeline* t);", "uint64_t side(uint64_t x);", "const char* sides(const char* s, int round);", "void durval(int n, HT_DurationNs d);", "HT_DECLS_END", "#endif", ""]
        files["common.h"] = "\n".join(common)
        for n, t in enumerate(case["tus"]):
            st = dict(st0, need={"base", "core"}, pedantic=[])
            body, ped_lines = [], []
            for i, f in enumerate(case["funcs"]):
                if f["tu"] == n:
                    st["pedantic"] = []
                    ls, off = self.function(case, i, st)
                    ped_lines += [len(body) + off + x for x in st["pedantic"]]
                    body += ls
            st0["durs"] = st["durs"]
            inc = list(t["headers"])
            r = __import__("random").Random(t["pos"])
            for h in sorted(st["need"]):
                if NEED[h] not in inc and "hawktracer.h" not in inc:
                    inc.insert(r.randint(0, len(inc)), NEED[h])
            if t["dup"]:
                inc = inc + list(reversed(inc))
            top = ["#include <%s>" % h for h in inc] + ["#include \"common.h\""]
            if n == case["impl"]:
                # the definitions of the classes: one unit asks for them behind the headers it has included already
                top = ["#include <hawktracer/core_events.h>", "#include <hawktracer/event_macros_impl.h>", "#include \"common.h\""] + top[:-1]
            name = "tu%d.%s" % (n, "cpp" if t["cpp"] else "c")
            files[name] = "\n".join(top + body) + "\n"
            ped[name] = [len(top) + x for x in ped_lines]
        m = ["#include \"common.h\"", "#include <hawktracer/init.h>", "#include <hawktracer/feature_callstack.h>", "#include <hawktracer/feature_cached_string.h>", "#include <hawktracer/global_timeline.h>", "#include <hawktracer/listeners/file_dump_listener.h>", "#include <pthread.h>", "#include <stdio.h>", "#include <string.h>", "#include <stdlib.h>",
             "static __thread unsigned long nside; static __thread int thr; static __thread HT_DurationNs durs[256];",
             "HT_Timeline* pick(HT_Timeline* t) { return t; }", "uint64_t side(uint64_t x) { nside++; return x; }", "const char* sides(const char* s, int round) { nside++; return (round & 1) ? \"odd\" : s; }",
             "void durval(int n, HT_DurationNs d) { durs[n] = d; }",
             "struct Sink { unsigned char* b; size_t n, c; };",
             "static void cb(TEventPtr p, size_t n, HT_Boolean s, void* u) { struct Sink* k = (struct Sink*)u; if (!s) abort(); if (k->n + n > k->c) { k->c = 2 * (k->n + n); k->b = (unsigned char*)realloc(k->b, k->c); } memcpy(k->b + k->n, p, n); k->n += n; }",
             "static struct Sink out[3][2]; static unsigned long counts[3]; static HT_DurationNs dcopy[3][256];",
             "static void gcb(TEventPtr p, size_t n, HT_Boolean s, void* u) { (void)u; cb(p, n, s, &out[thr][1]); }",
             "static void hex(const char* w, int i, struct Sink* k) { size_t j; printf(\"%s %d \", w, i); for (j = 0; j < k->n; j++) printf(\"%02x\", k->b[j]); printf(\"\\n\"); }",
             "static void* work(void* a) { int r, i = (int)(size_t)a; HT_ErrorCode e; HT_Timeline* t; thr = i;",
             "  t = ht_timeline_create(%d, HT_FALSE, HT_TRUE, NULL, &e); if (!t) abort();" % case["cap"],
             "  if (ht_feature_callstack_enable(t) || ht_feature_cached_string_enable(t, HT_FALSE)) abort();",
             "  ht_timeline_register_listener(t, cb, &out[i][0]);",
             "  if (i == 0 && %d) { if (!ht_file_dump_listener_register(t, \"rec.htdump\", %d, &e)) abort(); }" % (case.get("dump", 0) > 0, case.get("dump", 0) or 1),
             "  for (r = 0; r < %d; r++) f0(t, r);" % case["rounds"],
             "  ht_timeline_flush(t); ht_timeline_flush(ht_global_timeline_get()); ht_timeline_destroy(t); counts[i] = nside; memcpy(dcopy[i], durs, sizeof durs); return NULL; }",
             "int main(void) { int i, k; pthread_t th[3]; char a[] = \"prog\", b[] = \"--ht-global-timeline-buffer-size\", c[] = \"%d\"; char* argv[] = {a, b, c, NULL}; (void)argv; ht_init(%s);" % ((case["gcap"], "3, argv") if case.get("gcap") else (0, "0, NULL"))]
        for k in case["klasses"]:
            m.append("  HT_REGISTER_EVENT_KLASS(%s); printf(\"K %%u\\n\", (unsigned)HT_EVENT_KLASS_GET(%s)->klass_id);" % (k["name"], k["name"]))
        m.append("  printf(\"T %u %u %u\\n\", (unsigned)HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id, (unsigned)HT_EVENT_KLASS_GET(HT_CallstackStringEvent)->klass_id, (unsigned)HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id);")
        m.append("  ht_timeline_register_listener(ht_global_timeline_get(), gcb, NULL);  /* one for the global timelines of all threads */")
        m.append("  for (i = 1; i <= %d; i++) pthread_create(&th[i], NULL, work, (void*)(size_t)i);" % case["threads"])
        m.append("  work((void*)0); for (i = 1; i <= %d; i++) pthread_join(th[i], NULL);" % case["threads"])
        m.append("  for (i = 0; i <= %d; i++) { hex(\"L\", i, &out[i][0]); hex(\"G\", i, &out[i][1]); printf(\"C %%d %%lu\\n\", i, counts[i]); printf(\"D %%d\", i); for (k = 0; k < %d; k++) printf(\" %%llu\", (unsigned long long)dcopy[i][k]); printf(\"\\n\"); }" % (case["threads"], st0["durs"]))
        m.append("  printf(\"E\\n\"); ht_deinit(); return 0; }")
        files["main.c"] = "\n".join(m) + "\n"
        return files, ped, st0["durvals"]

    # ---- simulation ---------------------------------------------------------------------------------------------------
    def simulate(self, case):
        out = ([], [])
        counts = [0]
        stack, starts = [], [0]
        durs = {}
        ids = {}
        for n in range(len(case["tus"])):
            for i, f in enumerate(case["funcs"]):
                if f["tu"] == n:
                    self.number(f["body"], ids)

        class Ret(Exception):
            pass

        class Throw(Exception):
            pass

        class Jump(Exception):
            pass

        def scope(fi, body, rnd, loops):
            mark = len(stack)
            try:
                run(fi, body, rnd, loops)
            finally:
                while len(stack) > mark:
                    g, e = stack.pop()
                    out[g].append(e)

        def run(fi, body, rnd, loops):
            for s in body:
                if s[0] == "tp":
                    _, kind, glob, label, num, side = s
                    fn = self.fname(case, fi)
                    if kind in ("int", "string", "trace", "dyn", "trace_dyn") and side:
                        counts[0] += 1
                        if rnd & 1:
                            label = "odd"
                    e = {"int": ("int", num), "string": ("string", label), "trace": ("string", label), "trace_fn": ("string", fn), "function": ("cached", fn), "trace_fn_opt": ("cached", fn)}.get(kind, ("cached", label))
                    starts[0] += 1
                    stack.append((1 if glob else 0, ("span", e[0], e[1], starts[0])))
                elif s[0] == "block":
                    scope(fi, s[1], rnd, loops)
                elif s[0] == "loop":
                    for i in range(s[1]):
                        try:
                            scope(fi, s[2], rnd, loops + [i])
                        except Jump as j:
                            if j.args[0] == "break":
                                break
                elif s[0] == "call":
                    call(s[1], rnd)
                elif s[0] == "retif":
                    if rnd == s[1]:
                        raise Ret()
                elif s[0] == "brkif":
                    if loops[-1] == s[2]:
                        raise Jump(s[1])
                elif s[0] == "push":
                    counts[0] += sum(1 for j, (ty, _) in enumerate(case["klasses"][s[1]]["fields"]) if ty == "uint64_t" and not (case["clash"] and j == 0))
                    starts[0] += 1
                    out[1 if s[4] else 0].append(("ev", s[1], s[2], starts[0]))
                elif s[0] == "dur":
                    durs[ids[id(s)]] = self.durval(s)
                elif s[0] == "try":
                    try:
                        scope(fi, s[1], rnd, [])
                    except Throw:
                        pass
                elif s[0] == "throwif":
                    if rnd == s[1]:
                        raise Throw()
                elif s[0] == "goto":
                    mark = len(stack)
                    try:
                        run(fi, s[2], rnd, loops)
                        if rnd != s[1]:
                            scope(fi, s[3], rnd, loops)
                    finally:
                        while len(stack) > mark:
                            g, e = stack.pop()
                            out[g].append(e)

        def call(i, rnd):
            for inst in range(2 if case["funcs"][i]["shape"] == "template" else 1):
                try:
                    scope(i, case["funcs"][i]["body"], rnd, [])
                except Ret:
                    pass
        for rnd in range(case["rounds"]):
            call(0, rnd)
        return out, counts, durs, starts[0]

    def number(self, body, ids):
        for s in body:
            if s[0] == "dur":
                ids[id(s)] = len(ids)
            for x in s:
                if isinstance(x, list) and s[0] in ("block", "loop", "try", "goto"):
                    self.number(x, ids)

    def durval(self, s):
        _, m, lit, a, form, b = s
        x = {"lit": a, "sum": a + b, "cond": a, "cmp": a | b, "var": a}[form]
        x = x * DUR[m] & MASK
        return x // 10 if form == "cmp" else x

    def judge(self, case, out):
        ls = out.split("\n")
        if ls[-2] != "E":
            return ("output", "the program did not finish")
        kid = [int(l[2:]) for l in ls if l.startswith("K ")]
        kint, kstr, kmap = map(int, next(l for l in ls if l.startswith("T "))[2:].split())
        exp, counts, durs, _ = self.simulate(case)
        for th in range(case["threads"] + 1):
            for g, w in enumerate("LG"):
                b = bytes.fromhex(next(l for l in ls if l.startswith("%s %d " % (w, th))).split(" ")[2])
                r = self.judge_stream(case, b, exp[g], kid, kint, kstr, kmap, "%s timeline of thread %d" % ("global" if g else "own", th))
                if r:
                    return r
            got = list(map(int, next(l for l in ls if l.startswith("C %d " % th)).split()[2:]))
            if got != counts:
                return ("evaluations", "thread %d: expressions for labels and values are evaluated %d times, expected %d" % (th, got[0], counts[0]))
            d = list(map(int, next(l for l in ls if l.startswith("D %d" % th)).split()[2:]))
            for i, x in durs.items():
                if d[i] != x:
                    return ("duration", "duration expression %d yields %d, expected %d" % (i, d[i], x))
        return None

    def judge_stream(self, case, b, exp, kid, kint, kstr, kmap, what):
        o, ids, n, got = 0, {}, 0, []

        def z(o):
            e = b.index(0, o)
            return b[o:e].decode("latin1"), e + 1
        while o < len(b):
            k, ts, eid = struct.unpack_from("<IQQ", b, o)
            o += HDR
            if k == kmap:
                x = struct.unpack_from("<Q", b, o)[0]
                l, o = z(o + 8)
                if x in ids:
                    return ("announced-twice", "%s: label '%s' is announced again as '%s'" % (what, ids[x], l))
                ids[x] = l
            elif k in (kint, kstr):
                dur, tid = struct.unpack_from("<QI", b, o)
                o += 12
                if k == kint:
                    x = struct.unpack_from("<Q", b, o)[0]
                    o += 8
                    got.append(("int", x, ids.get(x), ts, dur, tid, eid))
                else:
                    l, o = z(o)
                    got.append(("string", l, None, ts, dur, tid, eid))
            elif k in kid:
                q = kid.index(k)
                K = case["klasses"][q]
                if K["deep"]:
                    if struct.unpack_from("<QI", b, o) != (7, 9):
                        return ("pushed", "%s: the base fields of a pushed %s are %s" % (what, K["name"], struct.unpack_from("<QI", b, o)))
                    o += 12
                vs = []
                for t, _ in K["fields"]:
                    if t in FTYPES:
                        vs.append(int.from_bytes(b[o:o + FTYPES[t]], "little"))
                        o += FTYPES[t]
                    else:
                        l, o = z(o)
                        vs.append(l)
                got.append(("ev", q, vs, ts, 0, 0, eid))
            else:
                return ("stream", "%s: event of unknown class %d" % (what, k))
        if len(got) != len(exp):
            return ("stream", "%s: %d spans and events, expected %d" % (what, len(got), len(exp)))
        order = []
        for i, (x, e) in enumerate(zip(got, exp)):
            if e[0] == "ev":
                if x[0] != "ev" or x[1] != e[1] or x[2] != [v if v is not None else "" for v in e[2]]:
                    return ("pushed", "%s: event %d is %s, expected %s %s" % (what, i, x[:3], case["klasses"][e[1]]["name"], e[2]))
            else:
                ok = x[0] == "string" and x[1] == e[2] if e[1] == "string" else x[0] == "int" and (x[1] == e[2] if e[1] == "int" else x[2] == e[2])
                if not ok:
                    return ("span", "%s: span %d is %s %s (announced as %s), expected %s '%s'" % (what, i, x[0], x[1], x[2], e[1], e[2]))
            order.append((e[3], x[3], x[4], i))
        order.sort()
        for a, c in zip(order, order[1:]):
            if c[1] < a[1]:
                return ("time", "%s: what began later has the earlier timestamp (%d after %d)" % (what, c[1], a[1]))
        ends = [x[3] + x[4] for x in got]
        for a, c in zip(ends, ends[1:]):
            if c < a:
                return ("time", "%s: a span that ended later has the earlier end (%d after %d)" % (what, c, a))
        if len({x[6] for x in got}) != len(got):
            return ("ids", "%s: event ids are not unique" % what)
        if len({x[5] for x in got if x[0] != "ev"}) > 1:
            return ("thread", "%s: spans of one thread have different thread ids" % what)
        return None

    def tree(self, case):
        """the flags for compiling, and the command for linking"""
        inc = ["-I" + os.path.join(B.BUILD, "plain", "include")] + ["-I" + os.path.join(B.REPO, p) for p in ("lib/include", "parser/include", "client_utils/include")] + ["-I."]

        def link(objs, cpp):
            if case["link"] == "shared":
                return [B.GXX if cpp else B.GCC, "-o", "prog"] + objs + [self.so, "-Wl,-rpath," + os.path.dirname(self.so), "-lpthread"]
            return [B.GXX, "-o", "prog"] + objs + [os.path.join(B.BUILD, "plain", "libhawktracer.a"), "-lpthread", "-ldl"]
        return inc, link

    def after(self, case, w, out):
        return None

    # ---- run ----------------------------------------------------------------------------------------------------------
    def run_case(self, case, d):
        w = os.path.join(d, "prog")
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        files, ped, _ = self.program(case)
        for n, t in files.items():
            open(os.path.join(w, n), "w").write(t)
        inc, link = self.tree(case)
        cc = {("gcc", False): B.GCC, ("gcc", True): B.GXX, ("clang", False): B.CC, ("clang", True): B.CXX}
        desc = json.dumps(dict(tus=[(t["cc"], t["std"], t["opt"], t["headers"][:3]) for t in case["tus"]], link=case["link"], threads=case["threads"], shapes=[f["shape"] for f in case["funcs"]]))
        jobs = [("main.c", [B.GCC, "-std=gnu11", "-w", "-O1"])]
        for n, t in enumerate(case["tus"]):
            jobs.append(("tu%d.%s" % (n, "cpp" if t["cpp"] else "c"), [cc[t["cc"], t["cpp"]], "-std=" + t["std"], "-Wall", "-Wextra", t["opt"]]))
        objs = []
        for s, cmd in jobs:
            p = subprocess.run(cmd + inc + ["-c", s, "-o", s + ".o"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            if p.returncode:
                err = "\n".join([l for l in p.stdout.split("\n") if "error" in l or "fatal" in l][:6]) or p.stdout[:800]
                return dict(status="broken" if s == "main.c" else "fail", key="does-not-compile", msg="a translation unit (%s) does not compile: %s" % (" ".join(cmd[:2]), err), sample=desc + "\n" + files[s][:1500])
            for l in p.stdout.split("\n"):
                f = l.split(":")
                if len(f) > 3 and f[0] == s and "warning" in l and f[1].isdigit() and int(f[1]) in ped.get(s, []):
                    return dict(status="fail", key="warning", msg="HT_TIMELINE_PUSH_EVENT_PEDANTIC causes a warning (%s): %s" % (" ".join(cmd), l), sample=desc)
            objs.append(s + ".o")
        cpp = any(t["cpp"] for t in case["tus"])
        p = subprocess.run(link(objs, cpp), cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if p.returncode:
            return dict(status="fail", key="does-not-link", msg="the program does not link: " + p.stdout[:1200], sample=desc)
        try:
            p = subprocess.run(["./prog"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
        except subprocess.TimeoutExpired:
            return dict(status="fail", key="hang", msg="the program does not end", sample=desc)
        if p.returncode:
            return dict(status="fail", key="crash", msg="the program ends with status %d: %s" % (p.returncode, p.stderr[-500:].decode("utf8", "replace")), sample=desc)
        try:
            r = self.judge(case, p.stdout.decode("latin1")) or self.after(case, w, p.stdout.decode("latin1"))
        except (ValueError, IndexError, struct.error, StopIteration) as e:
            r = ("output", "output cannot be understood (%s)" % e)
        shutil.rmtree(w, ignore_errors=True)
        exp = self.simulate(case)
        n = len(exp[0][0]) + len(exp[0][1])
        if r:
            return dict(status="fail", key=r[0], msg=r[1], sample=desc + "\n" + "\n".join(files["tu%d.%s" % (i, "cpp" if t["cpp"] else "c")] for i, t in enumerate(case["tus"]))[:2500])
        lab = {case["link"]: 1, "c-only": int(not cpp), "threads": int(case["threads"] > 0), "spans": n, "units": len(case["tus"])}
        for t in case["tus"]:
            lab["std:" + t["std"]] = lab.get("std:" + t["std"], 0) + 1
        return dict(status="ok", nontrivial=n >= 4 and len(case["tus"]) >= 2, labels=lab, sample=desc)

    # ---- shrinking ------------------------------------------------------------------------------------------------------
    def shrink(self, case):
        if case["threads"]:
            yield dict(case, threads=0)
        if case["rounds"] > 1:
            yield dict(case, rounds=1)

        def bodies(c):
            todo = [f["body"] for f in c["funcs"]]
            while todo:
                b = todo.pop()
                yield b
                for s in b:
                    if s[0] in ("block", "loop", "try", "goto"):
                        todo += [x for x in s[1:] if isinstance(x, list)]
        n = [len(b) for b in bodies(case)]
        for i, k in enumerate(n):
            if k > 1:
                c = copy.deepcopy(case)
                del list(bodies(c))[i][:]
                yield c
        for i, k in enumerate(n):
            for j in range(k):
                c = copy.deepcopy(case)
                del list(bodies(c))[i][j]
                yield c
        for i, t in enumerate(case["tus"]):
            for j in range(len(t["headers"])):
                c = copy.deepcopy(case)
                del c["tus"][i]["headers"][j]
                yield c
            if t["dup"]:
                c = copy.deepcopy(case)
                c["tus"][i]["dup"] = False
                yield c
        for i in range(len(case["funcs"]) - 1, 0, -1):
            if not any(s[0] == "call" and s[1] == i for b in bodies(case) for s in b) and i == len(case["funcs"]) - 1:
                c = copy.deepcopy(case)
                del c["funcs"][i]
                yield c

"""C02: generated programs that declare event classes; reflection data and serialized bytes against a Python model."""
import copy, json, os, struct, subprocess, sys
from pycomp import PyComponent
import build as B

INTS = [("uint8_t", 1, 0), ("int8_t", 1, 1), ("uint16_t", 2, 0), ("int16_t", 2, 1), ("uint32_t", 4, 0), ("int32_t", 4, 1), ("uint64_t", 8, 0), ("int64_t", 8, 1),
        ("unsigned char", 1, 0), ("signed char", 1, 1), ("short", 2, 1), ("unsigned short", 2, 0), ("int", 4, 1), ("unsigned int", 4, 0), ("long", 8, 1), ("unsigned long", 8, 0),
        ("long long", 8, 1), ("size_t", 8, 0), ("my_u16", 2, 0), ("my_i64", 8, 1), ("HT_ThreadId", 4, 0), ("HT_DurationNs", 8, 0)]
STRS = ["const char*", "char*", "my_str"]
PTRS = ["void*", "const void*", "struct Opaque*", "int*"]
KIND = dict(STRUCT=1, STRING=2, INTEGER=3, DOUBLE=5, POINTER=6)
CORE = {"HT_Event": [], "HT_CallstackBaseEvent": [["INTEGER", "HT_DurationNs", "duration"], ["INTEGER", "HT_ThreadId", "thread_id"]]}
CORE_BASE = {"HT_CallstackBaseEvent": "HT_Event"}
WORDS = ["a", "x1", "value", "offset", "size", "len", "name", "label", "info", "data", "buf", "count", "id_", "klass_", "ts", "type", "flag", "Field", "q", "longer_field_name_with_many_chars"]
SZ = {n: s for n, s, g in INTS}
SG = {n: g for n, s, g in INTS}


def cstr(b):
    return '"' + "".join("\\%03o" % c for c in b) + '"'


class Component(PyComponent):
    def extra_targets(self):
        # the library of the plain variant; the programs are compiled per case
        return [dict(name="klassgen_dummy", variant="plain", sources=[os.path.join(B.VERIF, "harness", "dummy.cpp")])]

    # ---- generation -------------------------------------------------------------------------------------------------
    def gen(self, r, index):
        n = r.randint(2, 9)
        kl = []
        for i in range(n):
            base = r.choice(["HT_Event", "HT_Event", "HT_CallstackBaseEvent"] + [k["name"] for k in kl] * 2)
            cnt = r.choice([1, 2, 3, 5, 8, 13, 20, 23, 24]) if r.chance(1, 2) else r.randint(1, 8)
            fs, used = [], set(self.names({k["name"]: k for k in kl}, base))
            for j in range(cnt):
                nm = r.choice(WORDS)
                while nm in used:
                    nm += r.choice("abcxyz_0123456789")
                used.add(nm)
                k = r.weighted(10, 5, 2, 2, 1)
                if k == 0:
                    fs.append(["INTEGER", r.choice(INTS)[0], nm])
                elif k == 1:
                    fs.append(["STRING", r.choice(STRS), nm])
                elif k == 2:
                    fs.append(["DOUBLE", "double", nm])
                elif k == 3:
                    fs.append(["POINTER", r.choice(PTRS), nm])
                elif kl and r.chance(1, 2):
                    fs.append(["STRUCT", r.choice(kl)["name"], nm])
                else:
                    fs.append(["INTEGER", r.choice(INTS)[0], nm])
            nm = r.choice(["Ev", "MyEvent", "K", "Some_Long_Event_Class_Name", "e"]) + str(i)
            kl.append(dict(name=nm, base=base, fields=fs))
        case = dict(lang=r.choice(["c", "cpp"]), compiler=r.choice(["gcc", "clang"]), opt=r.choice(["-O0", "-O2"]), split=r.chance(1, 3), klasses=kl, inst=[])
        case["std"] = r.choice(["gnu99", "gnu11", "gnu17"] if case["lang"] == "c" else ["c++11", "c++14", "c++17"])
        d = {k["name"]: k for k in kl}
        for i in range(r.randint(4, 16)):
            k = r.choice(kl)["name"]
            mode = r.choice(["struct", "struct", "push"])
            if self.has_struct(d, k):
                mode = "struct"
            case["inst"].append(dict(k=k, mode=mode, v=self.gen_vals(r, d, k)))
        return case

    def names(self, d, k):
        if k in CORE:
            return (self.names(d, CORE_BASE[k]) if k in CORE_BASE else []) + [f[2] for f in CORE[k]]
        return self.names(d, d[k]["base"]) + [f[2] for f in d[k]["fields"]]

    def chain(self, d, k):
        """[(class, own fields)] outermost base first"""
        out = []
        while True:
            if k in CORE:
                out.append((k, CORE[k]))
                if k not in CORE_BASE:
                    break
                k = CORE_BASE[k]
            else:
                out.append((k, d[k]["fields"]))
                k = d[k]["base"]
        return out[::-1]

    def has_struct(self, d, k):
        return any(f[0] == "STRUCT" for _, fs in self.chain(d, k) for f in fs)

    def gen_vals(self, r, d, k):
        v = dict(ts=r.u64any(), id=r.u64any(), f={})
        for kn, fs in self.chain(d, k):
            for f in fs:
                if f[0] == "INTEGER":
                    v["f"][f[2]] = r.u64any() & ((1 << (8 * SZ[f[1]])) - 1)
                elif f[0] == "STRING":
                    n = r.choice([0, 1, 3, 7, 8, 31, 64, 255, 256, 1000]) if r.chance(1, 3) else r.randint(0, 12)
                    v["f"][f[2]] = None if r.chance(1, 12) else [r.randint(1, 255) if r.chance(1, 3) else r.randint(97, 122) for _ in range(n)]
                elif f[0] == "DOUBLE":
                    v["f"][f[2]] = r.u64any() if r.chance(1, 2) else struct.unpack("<Q", struct.pack("<d", r.uniform(-1e9, 1e9)))[0]
                elif f[0] == "POINTER":
                    v["f"][f[2]] = r.u64any()
                else:
                    v["f"][f[2]] = self.gen_vals(r, d, f[1])
        return v

    # ---- model ------------------------------------------------------------------------------------------------------
    def encode(self, d, k, v, ids):
        o = struct.pack("<IQQ", ids[k], v["ts"], v["id"])
        for kn, fs in self.chain(d, k):
            for f in fs:
                x = v["f"][f[2]]
                if f[0] == "INTEGER":
                    o += x.to_bytes(SZ[f[1]], "little")
                elif f[0] == "STRING":
                    o += bytes(x or []) + b"\0"
                elif f[0] in ("DOUBLE", "POINTER"):
                    o += x.to_bytes(8, "little")
                else:
                    o += self.encode(d, f[1], x, ids)
        return o

    # ---- program ----------------------------------------------------------------------------------------------------
    def path(self, d, k, fname, prefix):
        while True:
            own = CORE[k] if k in CORE else d[k]["fields"]
            if any(f[2] == fname for f in own):
                return prefix + "." + fname
            prefix += ".base"
            k = CORE_BASE[k] if k in CORE else d[k]["base"]

    def fill(self, d, k, v, var, out):
        p = var
        kk = k
        while kk != "HT_Event":
            p += ".base"
            kk = CORE_BASE[kk] if kk in CORE else d[kk]["base"]
        out.append("    %s.klass = HT_EVENT_KLASS_GET(%s); %s.timestamp = %dULL; %s.id = %dULL;" % (p, k, p, v["ts"], p, v["id"]))
        for kn, fs in self.chain(d, k):
            for f in fs:
                q = self.path(d, k, f[2], var)
                if f[0] == "STRUCT":
                    self.fill(d, f[1], v["f"][f[2]], q, out)
                else:
                    out.append("    %s = %s;" % (q, self.lit(f, v["f"][f[2]])))

    def lit(self, f, x):
        if f[0] == "INTEGER":
            return "(%s)%dULL" % (f[1], x)
        if f[0] == "STRING":
            return "(%s)0" % f[1] if x is None else "(%s)%s" % (f[1], cstr(x))
        if f[0] == "DOUBLE":
            return "dbl(%dULL)" % x
        return "(%s)(uintptr_t)%dULL" % (f[1], x)

    def program(self, case):
        d = {k["name"]: k for k in case["klasses"]}
        decl = "#ifndef DECL_H\n#define DECL_H\n#include <stdint.h>\n#include <stddef.h>\ntypedef unsigned short my_u16;\ntypedef int64_t my_i64;\ntypedef const char* my_str;\nstruct Opaque;\n#include <hawktracer/core_events.h>\n%s#include <hawktracer/timeline.h>\n"
        body = ["HT_DECLS_BEGIN"]
        for k in case["klasses"]:
            body.append("HT_DECLARE_EVENT_KLASS(%s, %s, %s)" % (k["name"], k["base"], ", ".join("(%s, %s, %s)" % tuple(f) for f in k["fields"])))
        body += ["HT_DECLS_END", "#endif", ""]
        files = {}
        if case["split"]:
            files["decl.h"] = decl % "" + "\n".join(body)
            files["impl." + case["lang"]] = "#include <hawktracer/core_events.h>\n#include <hawktracer/event_macros_impl.h>\n#include \"decl.h\"\n"
        else:
            files["decl.h"] = decl % "#include <hawktracer/event_macros_impl.h>\n" + "\n".join(body)
        m = ["#include \"decl.h\"", "#include <hawktracer/init.h>", "#include <stdio.h>", "#include <string.h>", "#include <stdlib.h>",
             "static double dbl(uint64_t u) { double x; memcpy(&x, &u, 8); return x; }",
             "static void hex(const unsigned char* p, size_t n) { size_t i; for (i = 0; i < n; i++) printf(\"%02x\", p[i]); printf(\"\\n\"); }",
             "static void refl(MKCREFLECT_TypeInfo* t, HT_EventKlass* k) { size_t i; printf(\"K %s|%zu|%zu|%zu|%u|%d\\n\", t->name, t->fields_count, t->size, t->packed_size, (unsigned)k->klass_id, k->type_info == t);"
             " for (i = 0; i < t->fields_count; i++) printf(\"F %s|%s|%zu|%zu|%d|%d\\n\", t->fields[i].field_type, t->fields[i].field_name, t->fields[i].size, t->fields[i].offset, t->fields[i].is_signed != 0, (int)t->fields[i].data_type); }",
             "static void ser(HT_Event* e) { size_t n = HT_EVENT_GET_KLASS(e)->get_size(e), w; unsigned char* b = (unsigned char*)malloc(n + 64); memset(b, 0xC7, n + 64); w = HT_EVENT_GET_KLASS(e)->serialize(e, b);"
             " printf(\"I %zu %zu \", n, w); hex(b, n + 64); free(b); }",
             "static void cb(TEventPtr p, size_t n, HT_Boolean s, void* u) { (void)u; printf(\"P %d \", (int)s); hex(p, n); }",
             "int main(void) { HT_ErrorCode err; HT_Timeline* tl; ht_init(0, NULL);"]
        for k in case["klasses"]:
            m.append("  HT_REGISTER_EVENT_KLASS(%s); refl(mkcreflect_get_%s_type_info(), HT_EVENT_KLASS_GET(%s));" % (k["name"], k["name"], k["name"]))
            m.append("  printf(\"O %%zu\", sizeof(%s)); printf(\" %%zu:%%zu\", offsetof(%s, base), sizeof(%s));" % (k["name"], k["name"], k["base"]))
            for f in k["fields"]:
                m.append("  printf(\" %%zu:%%zu\", offsetof(%s, %s), sizeof(%s));" % (k["name"], f[2], f[1]))
            m.append("  printf(\"\\n\");")
        for j, k in enumerate(case["klasses"]):
            o = case["klasses"][j - 1]["name"] if j else "HT_CallstackIntEvent"
            m.append("  { %s a[3]; int q; memset(a, 0, sizeof a); for (q = 0; q < 3; q++) HT_EVENT(a + q)->klass = HT_EVENT_KLASS_GET(%s); printf(\"M %%d %%d %%d %%d\\n\", HT_EVENT_GET_KLASS(a + 2) == HT_EVENT_KLASS_GET(%s), HT_EVENT_IS_INSTANCE_OF(a + 1, %s), HT_EVENT_IS_INSTANCE_OF(q > 2 ? a + 2 : a, %s), HT_EVENT_IS_INSTANCE_OF(&a[1], %s)); }" % ((k["name"],) * 5 + (o,)))
        m.append("  { HT_CallstackIntEvent a[2]; printf(\"C %d\\n\", HT_CALLSTACK_BASE_EVENT(a + 1) == &a[1].base); }")
        m.append("  printf(\"B %u\\n\", (unsigned)HT_EVENT_KLASS_GET(HT_CallstackBaseEvent)->klass_id);")
        m.append("  tl = ht_timeline_create(4096, HT_FALSE, HT_TRUE, NULL, &err); ht_timeline_register_listener(tl, cb, NULL);")
        for i in case["inst"]:
            if i["mode"] == "struct":
                out = []
                self.fill(d, i["k"], i["v"], "ev", out)
                m.append("  { %s ev; memset(&ev, 0xAB, sizeof ev);\n%s\n    ser((HT_Event*)&ev); }" % (i["k"], "\n".join(out)))
            else:
                vals = [self.lit(f, i["v"]["f"][f[2]]) for _, fs in self.chain(d, i["k"]) for f in fs]
                m.append("  { HT_TIMELINE_PUSH_EVENT(tl, %s, %s); ht_timeline_flush(tl); }" % (i["k"], ", ".join(vals)))
        m.append("  ht_timeline_destroy(tl); ht_deinit(); return 0; }")
        files["main." + case["lang"]] = "\n".join(m) + "\n"
        return files

    def run_case(self, case, d):
        import shutil
        w = os.path.join(d, "prog")
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        for n, t in self.program(case).items():
            open(os.path.join(w, n), "w").write(t)
        cc = {("gcc", "c"): B.GCC, ("gcc", "cpp"): B.GXX, ("clang", "c"): B.CC, ("clang", "cpp"): B.CXX}[(case["compiler"], case["lang"])]
        inc = ["-I" + os.path.join(B.BUILD, "plain", "include"), "-I" + os.path.join(B.REPO, "lib/include"), "-I."]
        srcs = [x for x in os.listdir(w) if x.endswith("." + case["lang"])]
        objs = []
        for s in srcs:
            p = subprocess.run([cc, "-std=" + case["std"], "-w", case["opt"], "-c", s, "-o", s + ".o"] + inc, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return dict(status="fail", key="does-not-compile", msg="a program declaring event classes does not compile: " + p.stdout[:1500], sample=json.dumps(case["klasses"]))
            objs.append(s + ".o")
        p = subprocess.run([B.GXX, "-o", "prog"] + objs + [os.path.join(B.BUILD, "plain", "libhawktracer.a"), "-lpthread", "-ldl"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return dict(status="broken", key="link", msg=p.stdout[-1500:])
        try:
            p = subprocess.run(["./prog"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
        except subprocess.TimeoutExpired:
            return dict(status="fail", key="hang", msg="the program does not end")
        if p.returncode:
            return dict(status="fail", key="crash", msg="the program ends with status %d: %s" % (p.returncode, p.stderr[-500:].decode("utf8", "replace")), sample=json.dumps(case)[:1500])
        r = self.judge(case, p.stdout.decode("latin1"))
        shutil.rmtree(w, ignore_errors=True)
        if r:
            return dict(status="fail", key=r[0], msg=r[1], sample=json.dumps(case)[:2000])
        ns = sum(len(k["fields"]) for k in case["klasses"])
        deep = max(len(self.chain({k["name"]: k for k in case["klasses"]}, k["name"])) for k in case["klasses"])
        return dict(status="ok", nontrivial=ns >= 4 and len(case["inst"]) >= 2, cases=len(case["inst"]),
                    hashes=["%s%d" % (hash(json.dumps(i, sort_keys=True)), j) for j, i in enumerate(case["inst"])],
                    labels={case["lang"]: len(case["inst"]), case["compiler"]: len(case["inst"]), "depth>3": len(case["inst"]) if deep > 3 else 0},
                    sample="%s %s %s; first class %s" % (case["lang"], case["compiler"], case["std"], json.dumps(case["klasses"][0])))

    def judge(self, case, out):
        d = {k["name"]: k for k in case["klasses"]}
        ls = out.split("\n")
        i, ids = 0, {}
        for k in case["klasses"]:
            if not ls[i].startswith("K "):
                return ("output", "unexpected output " + ls[i][:200])
            name, cnt, size, packed, kid, ti = ls[i][2:].split("|")
            fl = []
            i += 1
            while ls[i].startswith("F "):
                fl.append(ls[i][2:].split("|"))
                i += 1
            o = ls[i][2:].split()
            i += 1
            exp = [["STRUCT", k["base"], "base"]] + k["fields"]
            if name != k["name"] or int(cnt) != len(exp) or int(size) != int(o[0]) or ti != "1":
                return ("reflection", "class %s: name '%s', %s fields (declared %d), size %s (sizeof %s)" % (k["name"], name, cnt, len(exp), size, o[0]))
            if int(packed) != sum(int(x.split(":")[1]) for x in o[1:]):
                return ("reflection", "class %s: packed size %s, sum of field sizes %d" % (k["name"], packed, sum(int(x.split(":")[1]) for x in o[1:])))
            for f, g, x in zip(exp, fl, o[1:]):
                off, sz = x.split(":")
                if g[0] != f[1] or g[1] != f[2] or g[2] != sz or g[3] != off or int(g[5]) != KIND[f[0]] or (f[0] == "INTEGER" and int(g[4]) != SG[f[1]]):
                    return ("reflection", "class %s field (%s, %s, %s): described as type '%s' name '%s' size %s offset %s signed %s kind %s (size %s offset %s)" % (k["name"], f[0], f[1], f[2], g[0], g[1], g[2], g[3], g[4], g[5], sz, off))
            if int(kid) in ids.values():
                return ("class-id", "class %s shares its id %s" % (k["name"], kid))
            ids[k["name"]] = int(kid)
        for k in case["klasses"]:
            if ls[i] != "M 1 1 1 0":
                return ("instance-of", "events of class %s in an array: class of the third, second is instance, first or third is instance, instance of another class: %s" % (k["name"], ls[i]))
            i += 1
        if ls[i] != "C 1":
            return ("cast", "HT_CALLSTACK_BASE_EVENT(array + 1) is not the base of the second event")
        i += 2
        for n, x in enumerate(case["inst"]):
            t = ls[i]
            i += 1
            v = x["v"]
            if x["mode"] == "struct":
                _, size, wrote, hx = t.split(" ")
                b = bytes.fromhex(hx)
                e = self.encode(d, x["k"], v, ids)
                if int(size) != len(e) or int(wrote) != len(e):
                    return ("size", "instance %d of %s: size reported %s, bytes written %s, expected %d" % (n, x["k"], size, wrote, len(e)))
                if b[:len(e)] != e:
                    j = next(q for q in range(len(e)) if b[q] != e[q])
                    return ("bytes", "instance %d of %s differs at byte %d of %d: %s, expected %s" % (n, x["k"], j, len(e), b[j:j + 16].hex(), e[j:j + 16].hex()))
                if b[len(e):] != b"\xc7" * 64:
                    return ("overrun", "serializing instance %d of %s wrote behind its size" % (n, x["k"]))
            else:
                _, ser, hx = t.split(" ")
                b = bytes.fromhex(hx)
                if len(b) < 20:
                    return ("bytes", "pushed instance %d of %s yields %d bytes" % (n, x["k"], len(b)))
                vv = dict(ts=struct.unpack("<Q", b[4:12])[0], id=struct.unpack("<Q", b[12:20])[0], f=v["f"])
                e = self.encode(d, x["k"], vv, ids)
                if b != e:
                    return ("bytes", "pushed instance %d of %s: got %d bytes %s, expected %d bytes %s" % (n, x["k"], len(b), b.hex()[:200], len(e), e.hex()[:200]))
        return None

    def shrink(self, case):
        for i in range(len(case["inst"])):
            c = copy.deepcopy(case)
            del c["inst"][i]
            yield c
        used = set()
        d = {k["name"]: k for k in case["klasses"]}

        def dep(k):
            if k in CORE or k in used:
                return
            used.add(k)
            dep(d[k]["base"])
            for f in d[k]["fields"]:
                if f[0] == "STRUCT":
                    dep(f[1])
        for k in case["klasses"]:
            used.clear()
            for x in case["inst"]:
                dep(x["k"])
            for o in case["klasses"]:
                if o is not k:
                    dep(o["name"])
            if k["name"] not in used:
                c = copy.deepcopy(case)
                c["klasses"] = [q for q in c["klasses"] if q["name"] != k["name"]]
                if c["klasses"]:
                    yield c
        for a, k in enumerate(case["klasses"]):
            for b in range(len(k["fields"])):
                if len(k["fields"]) > 1:
                    c = copy.deepcopy(case)
                    del c["klasses"][a]["fields"][b]
                    yield c

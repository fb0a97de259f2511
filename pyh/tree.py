"""C27: the project configured with generated options, built by its own build system with either compiler, installed into a scratch directory, and used from
there: generated programs (progs.py) compiled as pkg-config or find_package says, their recording converted by the installed converter and read by a
program that uses the installed parser library; all compared with the simulation of the program."""
import json, os, shutil, subprocess, tempfile
import progs
import build as B
from pycomp import Rng

READER = r'''
#include <hawktracer/parser/event.hpp>
#include <hawktracer/parser/file_stream.hpp>
#include <hawktracer/parser/klass_register.hpp>
#include <hawktracer/parser/protocol_reader.hpp>
#include <atomic>
#include <condition_variable>
#include <iostream>
#include <memory>
#include <mutex>
using namespace HawkTracer::parser;
int main(int, char** argv)
{
    KlassRegister kr;
    ProtocolReader reader(&kr, std::unique_ptr<Stream>(new FileStream(argv[1])), false);
    reader.register_events_listener([&](const Event& e) { std::cout << "EV " << e.get_klass()->get_name() << "\n"; });
    if (!reader.start()) { std::cout << "NOSTART\n"; return 0; }
    reader.wait_for_complete();
    reader.stop();
    std::cout << "END\n";
}
'''


class Component(progs.Component):
    workers = 4
    PROBES = {}

    def extra_targets(self):
        return []

    def prepare(self, scratch):
        self.scratch = scratch

    # ---- generation ---------------------------------------------------------------------------------------------------
    def gen(self, r, index):
        o = dict(cc=r.choice(["gcc", "clang"]), type=r.choice(["", "Debug", "Release", "RelWithDebInfo", "MinSizeRel"]), threads=r.chance(4, 5), forcec=r.chance(1, 3), static=r.chance(1, 2), client=r.chance(5, 6),
                 cpu=r.choice([None, True, False]), mem=r.choice([None, True, False]), hooks=r.chance(1, 6), pic=r.chance(1, 3), examples=r.chance(1, 4), libdir=r.choice([None, None, "lib64", "lib/x86_64-linux-gnu"]),
                 std=r.choice([None, None, "14", "17"]), gen=r.choice(["Ninja", "Ninja", "Unix Makefiles"]))
        o["tcp"] = o["threads"] and r.chance(2, 3)
        case = dict(opts=o, use=r.choice(["pkg-config", "pkg-config", "cmake"]), progs=[])
        for i in range(4):
            c = progs.Component.gen(self, r, index)
            c["link"] = "static" if o["static"] else "shared"
            c["dump"] = r.choice([64, 1024, 8192]) if o["client"] else 0
            if not o["threads"]:
                c["threads"] = 0
            self.adapt(c, o)
            case["progs"].append(c)
        return case

    def adapt(self, c, o):
        """what the configuration provides"""
        def walk(body, cpp):
            for s in body:
                if s[0] == "tp" and not o["threads"] and not cpp and s[1] in ("static", "trace_static", "function", "trace_fn_opt"):
                    s[1] = "dyn"
                for x in s:
                    if isinstance(x, list) and s[0] in ("block", "loop", "try", "goto"):
                        walk(x, cpp)
        for f in c["funcs"]:
            walk(f["body"], c["tus"][f["tu"]]["cpp"])
        for t in c["tus"]:
            if not o["client"]:
                t["headers"] = [h for h in t["headers"] if "/parser/" not in h and "client_utils" not in h]
            if not o["tcp"]:
                t["headers"] = [h for h in t["headers"] if "tcp_listener" not in h]

    # ---- build ----------------------------------------------------------------------------------------------------------
    def build(self, o, d):
        cc, cxx = (B.GCC, B.GXX) if o["cc"] == "gcc" else (B.CC, B.CXX)
        f = lambda x: "ON" if x else "OFF"
        a = ["cmake", "-G", o["gen"], "-S", B.REPO, "-B", d + "/b", "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_INSTALL_PREFIX=" + d + "/inst", "-DENABLE_DOC=OFF", "-DENABLE_TESTS=OFF", "-DENABLE_BENCHMARKS=OFF",
             "-DCMAKE_BUILD_TYPE=" + o["type"], "-DENABLE_THREADS=" + f(o["threads"]), "-DENABLE_TCP_LISTENER=" + f(o["tcp"]), "-DFORCE_C_COMPILATION=" + f(o["forcec"]), "-DBUILD_STATIC_LIB=" + f(o["static"]),
             "-DENABLE_CLIENT=" + f(o["client"]), "-DENABLE_POSITION_INDEPENDENT_CODE=" + f(o["pic"]), "-DENABLE_EXAMPLES=" + f(o["examples"])]
        for k, n in (("cpu", "CPU_USAGE"), ("mem", "MEMORY_USAGE")):
            if o[k] is not None:
                a.append("-DENABLE_%s_FEATURE=%s" % (n, f(o[k])))
        if o["hooks"]:
            a.append("-DENABLE_ALLOC_HOOKS_FEATURE=ON")
        if o["libdir"]:
            a.append("-DCMAKE_INSTALL_LIBDIR=" + o["libdir"])
        if o["std"]:
            a.append("-DCMAKE_CXX_STANDARD=" + o["std"])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        for what, cmd in (("configure", a), ("build", ["cmake", "--build", d + "/b", "-j3"]), ("install", ["cmake", "--install", d + "/b"])):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=300)
            if p.returncode:
                return ("not-" + what, "the configuration %s does not %s: %s" % (json.dumps(o), what, "\n".join([l for l in p.stdout.split("\n") if "rror" in l][:5]) or p.stdout[-600:]))
        return None

    def tree(self, case):
        o, inst = case["opts"], self.inst
        libdir = os.path.join(inst, o["libdir"] or "lib")
        env = dict(os.environ, PKG_CONFIG_PATH=libdir + "/pkgconfig")
        cflags = subprocess.run(["pkg-config", "--cflags", "hawktracer"], env=env, stdout=subprocess.PIPE, text=True).stdout.split()
        libs = subprocess.run(["pkg-config", "--libs", "hawktracer"], env=env, stdout=subprocess.PIPE, text=True).stdout.split()

        def link(objs, cpp):
            # a library built as C is for programs without C++; the others bring their C++ runtime (shared) or need it (static)
            return [B.GXX if cpp or (o["static"] and not o["forcec"]) else B.GCC, "-o", "prog"] + objs + libs + ["-Wl,-rpath," + libdir]
        return cflags + ["-I."], link

    def run_case(self, case, d):
        root = os.path.join(d, "tree")
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        self.inst = root + "/inst"
        o = case["opts"]
        try:
            r = self.build(o, root)
            if r:
                return dict(status="fail", key=r[0], msg=r[1], sample=json.dumps(o))
            lab = {k: int(bool(o[k])) for k in ("threads", "forcec", "static", "client", "tcp", "hooks", "examples")}
            lab.update({"configurations": 1, "cc:" + o["cc"]: 1, "use:" + case["use"]: 1})
            hs, n = [], 0
            if case["use"] == "cmake":
                r = self.find_package(case, root)
                if r:
                    return r
            if o["client"]:
                r = self.reader(o, root)
                if r:
                    return r
            for c in case["progs"]:
                c = dict(c, opts=o)
                r = progs.Component.run_case(self, c, root)
                if r["status"] != "ok":
                    r["msg"] += " (configuration %s)" % json.dumps(o)
                    return r
                hs.append(str(hash(json.dumps(c, sort_keys=True))))
                n += 1
                for k, v in r["labels"].items():
                    lab[k] = lab.get(k, 0) + v
            return dict(status="ok", nontrivial=n >= 1, cases=1 + n, hashes=hs + [str(hash(json.dumps(o, sort_keys=True)))], labels=lab, sample=json.dumps(o))
        finally:
            shutil.rmtree(root, ignore_errors=True)

    def find_package(self, case, root):
        """the first program through find_package, built by CMake"""
        c = case["progs"][0]
        files, _, _ = self.program(c)
        w = root + "/fp"
        os.makedirs(w)
        for n, t in files.items():
            open(os.path.join(w, n), "w").write(t)
        open(w + "/CMakeLists.txt", "w").write('cmake_minimum_required(VERSION 3.5)\nproject(consumer)\nfind_package(HawkTracer REQUIRED)\nadd_executable(prog %s)\ntarget_link_libraries(prog ${HawkTracer_LIBRARIES})\n' % " ".join(n for n in files if not n.endswith(".h")))
        o = case["opts"]
        cc, cxx = (B.GCC, B.GXX) if o["cc"] == "gcc" else (B.CC, B.CXX)
        for what, cmd in (("find", ["cmake", "-G", "Ninja", "-S", w, "-B", w + "/b", "-DHawkTracer_DIR=" + os.path.join(self.inst, o["libdir"] or "lib", "cmake", "HawkTracer"), "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_CXX_COMPILER=" + cxx]), ("use", ["cmake", "--build", w + "/b"])):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            if p.returncode:
                return dict(status="fail", key="find-package", msg="a program cannot %s the installed package through find_package: %s (configuration %s)" % (what, "\n".join([l for l in p.stdout.split("\n") if "rror" in l][:5]) or p.stdout[-600:], json.dumps(o)))
        p = subprocess.run([w + "/b/prog"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
        if p.returncode:
            return dict(status="fail", key="crash", msg="a program built through find_package ends with status %d (configuration %s)" % (p.returncode, json.dumps(o)))
        r = self.judge(c, p.stdout.decode("latin1"))
        return dict(status="fail", key=r[0], msg=r[1] + " (configuration %s, find_package)" % json.dumps(o)) if r else None

    def reader(self, o, root):
        libdir = os.path.join(self.inst, o["libdir"] or "lib")
        alt = os.path.join(self.inst, "lib")
        open(root + "/reader.cpp", "w").write(READER)
        p = subprocess.run([B.GXX if o["cc"] == "gcc" else B.CXX, "-std=c++11", "-w", "-I" + self.inst + "/include", "reader.cpp", "-o", "reader", "-L" + libdir, "-L" + alt, "-lhawktracer_parser", "-lhawktracer", "-lpthread", "-Wl,-rpath," + libdir + ":" + alt],
                           cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return dict(status="fail", key="parser-library", msg="a program using the installed parser library does not build: %s (configuration %s)" % (p.stdout[:800], json.dumps(o)))
        return None

    def after(self, case, w, out):
        """the recording of the own timeline of thread 0"""
        if not case.get("dump"):
            return None
        exp = self.simulate(case)[0][0]
        libs = [os.path.join(self.inst, x) for x in (case["opts"]["libdir"] or "lib", "lib")]
        env = dict(os.environ, LD_LIBRARY_PATH=":".join(libs))
        p = subprocess.run(["../reader", "rec.htdump"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=30)
        ls = p.stdout.decode("latin1").split("\n")
        if p.returncode or "END" not in ls:
            return ("reader", "a program using the installed parser library ends with status %d: %s" % (p.returncode, ls[-3:]))
        names = [l[3:] for l in ls if l.startswith("EV ")]
        want = [case["klasses"][e[1]]["name"] if e[0] == "ev" else "HT_CallstackStringEvent" if e[1] == "string" else "HT_CallstackIntEvent" for e in exp]
        got = [n for n in names if n in ("HT_CallstackStringEvent", "HT_CallstackIntEvent") or n in [k["name"] for k in case["klasses"]]]
        if got != want:
            return ("reader", "the installed parser library reads %s, traced were %s" % (got[:10], want[:10]))
        p = subprocess.run([os.path.join(self.inst, "bin", "hawktracer-converter"), "--source", "rec.htdump", "--output", "rec.json", "--format", "chrome-tracing"], cwd=w, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=30)
        if p.returncode:
            return ("converter", "the installed converter ends with status %d: %s" % (p.returncode, p.stdout[-300:].decode("utf8", "replace")))
        try:
            doc = json.load(open(os.path.join(w, "rec.json"), encoding="utf8"))
            names = [e["name"] for e in doc["traceEvents"]]
        except (ValueError, KeyError, OSError) as e:
            return ("converter", "the installed converter's output is not understood: %s" % e)
        want = [str(e[2]) for e in exp if e[0] == "span"]
        if names != want and len(names) == len(want):
            # an integer label that happens to be the identifier of a cached one is shown as that label
            bad = [(a, b) for a, b, e in zip(names, want, [e for e in exp if e[0] == "span"]) if a != b and e[1] != "int"]
            return ("converter", "the installed converter shows %s" % bad[:3]) if bad else None
        if len(names) != len(want):
            return ("converter", "the installed converter shows %d entries, traced were %d" % (len(names), len(want)))
        return None

    def shrink(self, case):
        if len(case["progs"]) > 1:
            for i in range(len(case["progs"])):
                yield dict(case, progs=[case["progs"][i]])
        elif case["progs"]:
            yield dict(case, progs=[])
        if case["use"] == "cmake":
            yield dict(case, use="pkg-config")
        base = dict(cc="gcc", type="", threads=True, tcp=True, forcec=False, static=False, client=True, cpu=None, mem=None, hooks=False, pic=False, examples=False, libdir=None, std=None, gen="Ninja")
        for k, v in base.items():
            if case["opts"][k] != v and not (k == "tcp" and not case["opts"]["threads"]) and not (k in ("static", "client", "forcec", "threads") and case["progs"]):
                yield dict(case, opts=dict(case["opts"], **{k: v}))

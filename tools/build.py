"""Generates build.ninja for the harnesses of one check and builds them from /repo's current working tree."""
import glob, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HT_REPO", "/repo")
BUILD = os.environ.get("HT_BUILD", os.path.join(VERIF, "build"))

CC, CXX = "/usr/bin/clang-18", "/usr/bin/clang++-18"
GCC, GXX = "/usr/bin/gcc", "/usr/bin/g++"

# alignment / pointer-overflow style findings are outside what a user relies on here: only memory errors and
# definite misbehaviour are treated as crashes
SAN = "-fsanitize=address -fsanitize=bounds,null,return,unreachable,integer-divide-by-zero -fno-sanitize-recover=all"
COMMON = "-g -O1 -fno-omit-frame-pointer -Wno-everything"  # assertions are on, as in the default build of the project
FEATURES = ["HT_PLATFORM_FEATURE_CPU_USAGE_ENABLED", "HT_PLATFORM_FEATURE_MEMORY_USAGE_ENABLED", "HT_USE_PTHREADS",
            "HT_ENABLE_TCP_LISTENER", "HT_ENABLE_THREADS"]

VARIANTS = {
    # name: (cc, cxx, flags, extra config defines, feature list)
    "asan": dict(cc=CC, cxx=CXX, flags=COMMON + " " + SAN, cfg="", feats=FEATURES, hooks=False),
    # virtual clock provided by the harness (documented extension point HT_MONOTONIC_CLOCK_IMPL_CUSTOM)
    "asanclk": dict(cc=CC, cxx=CXX, flags=COMMON + " " + SAN, cfg="#define HT_MONOTONIC_CLOCK_IMPL_CUSTOM\n", feats=FEATURES, hooks=False),
    # every load and store of the library calls the cooperative scheduler; virtual clock; scheduler-aware mutex
    "sched": dict(cc=CC, cxx=CXX, flags="-g -O1 -fno-omit-frame-pointer -Wno-everything " + SAN, libflags="-fsanitize-coverage=func,trace-loads,trace-stores,trace-pc",
                  cfg="#define HT_MONOTONIC_CLOCK_IMPL_CUSTOM\n#define HT_MUTEX_IMPL_CUSTOM\n", feats=FEATURES, hooks=False),
    "tsan": dict(cc=CC, cxx=CXX, flags="-g -O1 -fno-omit-frame-pointer -DNDEBUG -Wno-everything -fsanitize=thread", cfg="", feats=FEATURES, hooks=False),
    # ordinary optimised build with gcc, as a user would have it
    "plain": dict(cc=GCC, cxx=GXX, flags="-g -O2 -DNDEBUG -w -fPIC", cfg="", feats=FEATURES, hooks=False),
    "plainclk": dict(cc=GCC, cxx=GXX, flags="-g -O2 -DNDEBUG -w -fPIC", cfg="#define HT_MONOTONIC_CLOCK_IMPL_CUSTOM\n", feats=FEATURES, hooks=False),
    # Python extension modules, with AddressSanitizer of gcc (preloaded into the interpreter)
    "pyasan": dict(cc=GCC, cxx=GXX, flags="-g -O1 -fno-omit-frame-pointer -DNDEBUG -w -fPIC -fsanitize=address", cfg="", feats=FEATURES, hooks=False),
    # the other builds the project supports: the single-file library as C and as C++ (the harness sees nothing but the
    # generated header), the library forced to C, and the library without threads
    "amalgc": dict(cc=CC, cxx=CXX, flags=COMMON + " " + SAN, cfg="", feats=FEATURES, hooks=False, amalg="c", cstd="gnu99"),
    "amalgcclk": dict(cc=CC, cxx=CXX, flags=COMMON + " " + SAN, cfg="#define HT_MONOTONIC_CLOCK_IMPL_CUSTOM\n", feats=FEATURES, hooks=False, amalg="c", cstd="gnu11"),
    "amalgcpp": dict(cc=CC, cxx=CXX, flags=COMMON + " " + SAN, cfg="", feats=FEATURES, hooks=False, amalg="cpp", cxxstd="c++11"),
    "amalgcppclk": dict(cc=CC, cxx=CXX, flags=COMMON + " " + SAN, cfg="#define HT_MONOTONIC_CLOCK_IMPL_CUSTOM\n", feats=FEATURES, hooks=False, amalg="cpp", cxxstd="c++17"),
    "tsanc": dict(cc=CC, cxx=CXX, flags="-g -O1 -fno-omit-frame-pointer -DNDEBUG -Wno-everything -fsanitize=thread", cfg="", feats=FEATURES, hooks=False, forcec=True, cstd="gnu99"),
    "tsancg": dict(cc=GCC, cxx=GXX, flags="-g -O1 -fno-omit-frame-pointer -DNDEBUG -w -fsanitize=thread", cfg="", feats=FEATURES, hooks=False, forcec=True, cstd="gnu11"),
    "nothreads": dict(cc=CC, cxx=CXX, flags=COMMON + " " + SAN, cfg="", feats=[f for f in FEATURES if f not in ("HT_USE_PTHREADS", "HT_ENABLE_TCP_LISTENER", "HT_ENABLE_THREADS")], hooks=False,
                      skip=("tcp_listener.c", "tcp_server.cpp", "posix_mapped_tracepoint.c")),
    "nothreadsclk": dict(cc=CC, cxx=CXX, flags=COMMON + " " + SAN, cfg="#define HT_MONOTONIC_CLOCK_IMPL_CUSTOM\n", feats=[f for f in FEATURES if f not in ("HT_USE_PTHREADS", "HT_ENABLE_TCP_LISTENER", "HT_ENABLE_THREADS")], hooks=False,
                         skip=("tcp_listener.c", "tcp_server.cpp", "posix_mapped_tracepoint.c")),
    "schedc": dict(cc=CC, cxx=CXX, flags="-g -O1 -fno-omit-frame-pointer -Wno-everything " + SAN, libflags="-fsanitize-coverage=func,trace-loads,trace-stores,trace-pc",
                   cfg="#define HT_MONOTONIC_CLOCK_IMPL_CUSTOM\n#define HT_MUTEX_IMPL_CUSTOM\n", feats=FEATURES, hooks=False, forcec=True, cstd="gnu99"),
    "hooks": dict(cc=GCC, cxx=GXX, flags="-g -O2 -DNDEBUG -w -fPIC", cfg="", feats=FEATURES + ["HT_PLATFORM_FEATURE_ALLOC_HOOKS_ENABLED"], hooks=True),
}


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def project_version():
    m = re.search(r"VERSION\s+(\d+)\.(\d+)\.(\d+)", open(os.path.join(REPO, "CMakeLists.txt")).read().split("project(", 1)[1])
    return m.groups() if m else ("0", "0", "0")


def gen_config(variant):
    v = VARIANTS[variant]
    text = open(os.path.join(REPO, "lib/include/hawktracer/ht_config.h.in")).read()

    def rep(m):
        return "#define " + m.group(1) if m.group(1) in v["feats"] else "/* #undef %s */" % m.group(1)
    text = re.sub(r"#cmakedefine\s+(\w+)", rep, text)
    a, b, c = project_version()
    for k, x in (("@PROJECT_VERSION@", "%s.%s.%s" % (a, b, c)), ("@PROJECT_VERSION_MAJOR@", a), ("@PROJECT_VERSION_MINOR@", b), ("@PROJECT_VERSION_PATCH@", c)):
        text = text.replace(k, x)
    text = text.replace("#define HAWKTRACER_HT_CONFIG_H\n", "#define HAWKTRACER_HT_CONFIG_H\n" + v["cfg"], 1)
    write_if_changed(os.path.join(BUILD, variant, "include/hawktracer/ht_config.h"), text)


def amalgamate(variant):
    """runs the project's own tool; the harness sees <hawktracer/X.h> as nothing but the generated hawktracer.h"""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, variant, "amalg")
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="htverif.amalg.")
    try:
        subprocess.run([sys.executable, "-W", "ignore", os.path.join(REPO, "tools/amalgamate.py"), "--root-dir", REPO, "--out-dir", tmp,
                        "--config-path", os.path.join(BUILD, variant, "include/hawktracer/ht_config.h")] + (["--cpp"] if v["amalg"] == "cpp" else []),
                       check=True, stdout=subprocess.DEVNULL)
        for f in ("hawktracer." + v["amalg"], "hawktracer.h", "ht_config.h"):
            write_if_changed(os.path.join(d, f), open(os.path.join(tmp, f)).read())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    inc = os.path.join(REPO, "lib/include")
    for root, _, files in os.walk(os.path.join(inc, "hawktracer")):
        for f in files:
            f = os.path.relpath(os.path.join(root, f), inc)
            if f.endswith("event_macros_impl.h"):     # not part of the single header: a user who declares classes includes it
                write_if_changed(os.path.join(d, f), "#include <hawktracer.h>\n#include \"%s\"\n" % os.path.join(inc, f))
            elif f.endswith((".h", ".hpp")):
                write_if_changed(os.path.join(d, f), "#include <hawktracer.h>\n")
    write_if_changed(os.path.join(d, "hawktracer/ht_config.h"), "#include <ht_config.h>\n")
    return d


def lib_sources(variant):
    if VARIANTS[variant].get("amalg"):
        return [os.path.join(BUILD, variant, "amalg/hawktracer." + VARIANTS[variant]["amalg"])]
    s = []
    for pat in ("lib/*.c", "lib/*.cpp", "lib/listeners/*.c", "lib/listeners/*.cpp", "lib/platform/linux/*.c"):
        s += sorted(glob.glob(os.path.join(REPO, pat)))
    if not VARIANTS[variant]["hooks"]:
        s = [x for x in s if os.path.basename(x) != "alloc_hooks.c"]
    return [x for x in s if os.path.basename(x) not in VARIANTS[variant].get("skip", ())]


def client_sources():
    s = []
    for pat in ("parser/*.cpp", "client_utils/*.cpp", "client/*.cpp"):
        s += sorted(glob.glob(os.path.join(REPO, pat)))
    return [x for x in s if os.path.basename(x) != "main.cpp"]


def build(targets, jobs=8, quiet=True):
    """targets: list of dicts {name, variant, sources:[harness sources], client:bool, flags, ldflags}.  Returns (ok, log)."""
    n = ["ninja_required_version = 1.3", "rule cc", "  command = $cc $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && ar rcs $out $in", "rule ld", "  command = $cc $flags -o $out $in $ld"]
    done = {}
    outs = []

    def obj(variant, src, extra, tag):
        v = VARIANTS[variant]
        o = os.path.join(BUILD, variant, tag, re.sub(r"[^\w.]", "_", os.path.relpath(src, "/")) + ".o")
        if o in done:
            return o
        done[o] = 1
        forced = tag == "lib" and v.get("forcec") and src.endswith(".cpp")
        c = src.endswith(".c") or forced
        inc = " ".join("-I" + x for x in ([os.path.join(BUILD, variant, "amalg")] if v.get("amalg") and tag != "client" else []) + [os.path.join(BUILD, variant, "include"), os.path.join(REPO, "lib/include"), os.path.join(REPO, "parser/include"),
                                          os.path.join(REPO, "client_utils/include"), os.path.join(REPO, "client"), os.path.join(VERIF, "src")])
        lib = tag == "lib"
        std = "-std=" + (v.get("cstd") if lib and v.get("cstd") else "gnu11") if c else "-std=%s" % (v.get("cxxstd") if lib and v.get("cxxstd") else "c++17")
        if forced:
            std = "-x c " + std
        n.append("build %s: cc %s\n  cc = %s\n  flags = %s %s %s %s" % (o, src, v["cc"] if c else v["cxx"], v["flags"], extra, std, inc))
        return o
    libs = {}
    for t in targets:
        variant = t["variant"]
        v = VARIANTS[variant]
        if variant not in libs:
            gen_config(variant)
            if v.get("amalg"):
                try:
                    amalgamate(variant)
                except (subprocess.CalledProcessError, OSError) as e:
                    return False, "the single-file library could not be generated: %s" % e, []
            objs = [obj(variant, s, v.get("libflags", "") + " -DHT_COMPILE_SHARED_EXPORT", "lib") for s in lib_sources(variant)]
            a = os.path.join(BUILD, variant, "libhawktracer.a")
            n.append("build %s: ar %s" % (a, " ".join(objs)))
            libs[variant] = a
        link = []
        if t.get("client"):
            key = variant + ":client"
            if key not in libs:
                objs = [obj(variant, s, "", "client") for s in client_sources()]
                a = os.path.join(BUILD, variant, "libclient.a")
                n.append("build %s: ar %s" % (a, " ".join(objs)))
                libs[key] = a
            link.append(libs[key])
        link.append(libs[variant])
        hobjs = [obj(variant, s, t.get("flags", ""), "h_" + t["name"]) for s in t["sources"]]
        out = os.path.join(BUILD, variant, t["name"])
        if out in outs:
            continue
        n.append("build %s: ld %s %s\n  cc = %s\n  flags = %s\n  ld = -lpthread -ldl %s" % (out, " ".join(hobjs), " ".join(link), v["cxx"], v["flags"], t.get("ldflags", "")))
        outs.append(out)
    write_if_changed(os.path.join(BUILD, "build.%d.ninja" % os.getpid()), "\n".join(n) + "\n")
    f = os.path.join(BUILD, "build.%d.ninja" % os.getpid())
    p = subprocess.run(["ninja", "-C", BUILD, "-f", f, "-j", str(jobs)] + outs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.unlink(f)
    return p.returncode == 0, p.stdout, outs

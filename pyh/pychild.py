"""Runs one generated program without and with tracing (see pybind.py)."""
import functools, gc, json, os, re, sys, threading, time, traceback

D = sys.argv[1]
spec = json.load(open(os.path.join(D, "t.json")))
src = compile(open(os.path.join(D, "t.py")).read(), "t.py", "exec")


class Sentinel:
    def __repr__(self):
        return "S"


class MyErr(Exception):
    pass


class MyBase(BaseException):
    pass


class Base:
    def __repr__(self):
        return "<%s>" % type(self).__name__


def R(x):
    return re.sub("0x[0-9a-f]+", "0x", repr(x))


def plain(raw):
    return raw


def run(core):
    """core: the module with the decorator, or None for the program without it"""
    S = Sentinel()
    tl = threading.local()
    logs, spans = [[]], [[]]
    state = dict(tracing=(spec["env"] == "1"), dec=(spec["env"] == "1"), init=(spec["env"] == "1"))
    reg = [False] * len(spec["listeners"])
    raws, decorated, refs = {}, {}, []
    reg_result = [None] * len(reg)
    tl.log, tl.spans, tl.stack, tl.fuel = logs[0], spans[0], [], [spec["fuel"]]
    counter = [0]

    def L(*a):
        tl.log.append(list(a))

    def valid_name(i):
        try:
            n = raws[i].__name__
        except AttributeError:
            return None
        if type(n) is not str:
            return None
        try:
            n.encode()
        except UnicodeEncodeError:
            return None
        return n

    def C(i, thunk):
        name = valid_name(i) if decorated[i] and state["tracing"] and state["init"] else None
        me = None
        if name is not None:
            me = (threading.get_ident(), len(tl.spans), counter[0], time.monotonic_ns())
            counter[0] += 1
            tl.stack.append(me)
        L("call", i)
        try:
            ret = thunk()
            L("ret", i, R(ret), ret is S)
        except BaseException as e:
            L("exc", i, type(e).__name__, R(e))
            raise
        finally:
            if name is not None:
                tl.stack.pop()
                # name is the one at the time of the call
                tl.spans.append([name, str(tl.stack[-1]) if tl.stack else None, list(reg), str(me)])

    def C0(i, thunk):
        L("call", i)
        try:
            ret = thunk()
            L("ret", i, R(ret), ret is S)
        except BaseException as e:
            L("exc", i, type(e).__name__, R(e))
            raise

    def TT(i):
        def deco(raw):
            return T(i, raw)
        return deco

    def T(i, raw):
        if core:
            (core.enable_trace_decorator if spec["decs"][i] else core.disable_trace_decorator)()
        raws[i] = raw
        decorated[i] = spec["decs"][i] and callable(raw)
        w = (core.trace if core else plain)(raw)
        return w

    def RENAME(i, n):
        try:
            raws[i].__name__ = n
        except (AttributeError, TypeError, ValueError):
            pass

    def TOGGLE(on):
        state["tracing"] = on
        if core:
            (core.enable_tracing if on else core.disable_tracing)()

    def STEP(n):
        if spec["init"] == "late" and n == 1 and not state["init"]:
            INIT()
        for k, (at, size) in enumerate(spec["listeners"]):
            if at == n:
                if core:
                    try:
                        args = [os.path.join(D, "t.dump%d" % k)] + ([size] if size is not None else [])
                        core.register_file_listener(*args)
                        reg_result[k] = True
                    except Exception as e:
                        reg_result[k] = "not initialized" if not state["init"] else repr(e)
                if state["init"]:
                    reg[k] = True

    def INIT():
        state["init"] = True
        if core:
            core.init()

    def E(i, loc):
        L("enter", i, sorted((k, R(v), v is S) for k, v in loc.items()))
        return True

    def FUEL():
        tl.fuel[0] -= 1
        return tl.fuel[0] < 0

    def WHO(x):
        return x.__name__ if isinstance(x, type) else repr(x)

    def RUN(coro):
        try:
            coro.send(None)
        except StopIteration as e:
            return e.value
        return "suspended"
    THREADS = []
    g = dict(S=S, R=R, C0=C0, L=L, C=C, T=T, TT=TT, RENAME=RENAME, TOGGLE=TOGGLE, STEP=STEP, E=E, FUEL=FUEL, WHO=WHO, RUN=RUN, THREADS=THREADS, functools=functools, MyErr=MyErr, MyBase=MyBase, Base=Base, __name__="prog")
    if spec["init"] in ("first", "twice"):
        INIT()
    if spec["init"] == "twice":
        INIT()
    if spec["on"]:
        TOGGLE(True)
    exec(src, g)
    ths = []
    for n, f in enumerate(THREADS):
        logs.append([])
        spans.append([])

        def body(f=f, log=logs[-1], sp=spans[-1]):
            tl.log, tl.spans, tl.stack, tl.fuel = log, sp, [], [spec["fuel"]]
            f()
        ths.append(threading.Thread(target=body))
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    # a joined thread may still be on its way out: its events are flushed there
    end = time.time() + 30
    while ths and len(os.listdir("/proc/self/task")) > 1 and time.time() < end:
        time.sleep(0.001)
    # references: calling and dropping a traced function leaves its function, its arguments and its result alone
    if core:
        core.enable_trace_decorator()
        for f in (lambda x, y=None: x, (lambda: None) and MyErr, functools.partial(lambda x, y=None: x)):
            before = sys.getrefcount(f), sys.getrefcount(S)
            w = core.trace(f)
            for k in range(10):
                w(S)
                w(S, S)
                try:
                    w(S, y=S)
                except TypeError:
                    pass
                try:
                    w(S, S, S, zz=S)
                except TypeError:
                    pass
            del w, k
            gc.collect()
            after = sys.getrefcount(f), sys.getrefcount(S)
            if before != after:
                refs.append("references of %r and its argument %s, after calling it %s" % (f, before, after))
            core.disable_trace_decorator()
            for k in range(3):
                w = core.trace(f)
                if w is not f:
                    refs.append("trace() changes a function although the decorator is disabled")
            del w, k
            core.enable_trace_decorator()
            after = sys.getrefcount(f), sys.getrefcount(S)
            if before != after:
                refs.append("references of %r %s, after decorating it while decorators are disabled %s" % (f, before, after))
    return logs, spans, refs, reg_result, state


try:
    ref = run(None)
    import hawktracer.core as core
    if spec["env"] != "1" and spec["on"] is False:
        core.disable_tracing()
    extra = []
    try:
        tr = run(core)
    except BaseException:
        out = dict(error=traceback.format_exc()[-1500:])
        raise
    logs, spans, refs, reg_result, state = tr
    # the calls made to count references are spans of the main thread, too
    if state["tracing"] and state["init"]:
        for name in ("<lambda>", "MyErr"):
            for k in range(40):
                spans[0].append([name, None, [x is True for x in reg_result], "ref"])
    out = dict(ref=ref[0], traced=logs, refs=refs, spans=spans, registered=reg_result)
except BaseException:
    if "out" not in globals():
        out = dict(broken=traceback.format_exc())
with open(os.path.join(D, "t.out"), "w") as f:
    json.dump(out, f)
if "ref" in out:
    if spec["exit"] == "sysexit":
        sys.exit(7)
    if spec["exit"] == "raise":
        raise ValueError("uncaught")
    if spec["exit"] == "daemon":
        ev = threading.Event()

        def daemon():
            ev.set()
            while True:
                time.sleep(0.001)
        threading.Thread(target=daemon, daemon=True).start()
        ev.wait()

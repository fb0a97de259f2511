"""Runs the scenarios of one case of pyclient.py."""
import functools, gc, json, os, socket, sys, threading, time, traceback, tracemalloc
import hawktracer.client as hc

D = sys.argv[1]
spec = json.load(open(os.path.join(D, "c.json")))


class Sub(hc.Client):
    extra = 1


class Server:
    """sends a file, in chunks, to everyone who connects"""
    def __init__(self, path, chunk, end, sock=None):
        self.data, self.chunk, self.end, self.quit = open(path, "rb").read(), chunk, end, False
        self.s = sock or socket.create_server(("127.0.0.1", 0))
        self.s.listen(5)
        self.sent = threading.Event()
        self.address = "127.0.0.1:%d" % self.s.getsockname()[1]
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while not self.quit:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        step = max(self.chunk, len(self.data) // 400 + 1)
        try:
            for i in range(0, len(self.data), step):
                c.sendall(self.data[i:i + step])
                if self.chunk < 1000:
                    time.sleep(0.0002)
            self.sent.set()
            while not self.end and not self.quit:
                time.sleep(0.002)
        except OSError:
            pass
        c.close()

    def close(self):
        self.quit = True
        self.s.close()


class CB:
    def __init__(self, s, client=None):
        self.s, self.got, self.client, self.threads, self.errors = s, [], client, set(), []
        self.action = None

    def __call__(self, *a):
        return self.event(*a)

    def event(self, name, data):
        self.threads.add(threading.get_ident())
        self.got.append([name, data])
        n = len(self.got)
        if self.s["mode"] == "stop_in_cb" and n == self.s["at"] + 1:
            self.client.stop()
        if self.action and n == self.s["at"] + 1:
            self.action()
        if self.s["raising"] and n % self.s["raising"] == 0:
            raise [ValueError, KeyError, SystemExit, KeyboardInterrupt][n % 4 if self.s["raising"] == 3 else 0](n)
        return [n, name]

    def make(self):
        k = self.s["kind"]
        return {"function": lambda a, b: self.event(a, b), "method": self.event, "partial": functools.partial(CB.event, self), "object": self}[k]


class Garbage:
    """a cycle whose end lets other threads run"""
    def __init__(self):
        self.me = self

    def __del__(self):
        time.sleep(0)


def wait_for(f, limit=30):
    end = time.time() + limit
    while not f():
        if time.time() > end:
            raise RuntimeError("waited in vain")
        time.sleep(0.0005)


def stopped(c):
    try:
        c.stop()
        return True
    except RuntimeError:     # not started yet
        return False


def drain(c, limit=40):
    out, end, done = [], time.time() + limit, False
    while time.time() < end:
        e = c.poll_event()
        if e is None:
            if done:
                return out
            done = c.eos()
            if not done:
                time.sleep(0.0005)
        else:
            assert type(e) is tuple and len(e) == 2
            out.append(list(e))
    raise RuntimeError("no end of the stream after %d events" % len(out))


def scenario(n, s):
    path = os.path.join(D, "c.%d.htdump" % n)
    srv = Server(path, s["chunk"], s["end_socket"] or s["mode"] not in ("stop_main", "delete", "stop_in_cb") or (s["mode"] == "stop_in_cb" and s["events"] <= s["at"])) if s["source"] == "tcp" else None
    src = srv.address if srv else path
    c = Sub() if s["sub"] else hc.Client()
    m = s["mode"]
    out = dict(runs=[])
    try:
        if m == "unstarted":
            for f in ("eos", "poll_event", "stop", "wait_for_eos"):
                if f == "wait_for_eos" and not s["wait"]:
                    continue
                try:
                    getattr(c, f)()
                except Exception:
                    pass
            m = "poll"
        if m == "badsource":
            for b in ("/nonexistent/x", "300.1.1.1", ""):
                try:
                    c.start(b)
                    out["error"] = "start(%r) succeeds" % b
                except Exception:
                    pass
            try:
                c.start(src, 5)
                out["error"] = "a number is accepted as callback"
            except TypeError:
                pass
            m = "poll"
        if m == "poll":
            c.start(src, *([None] if s["none"] else []))
            out["runs"].append(drain(c))
            if s["again"]:
                c.stop()
                c.stop()
                assert c.poll_event() is None and c.eos() is True
        elif m == "callback":
            cb = CB(s)
            f = cb.make()
            before = sys.getrefcount(f)
            c.start(src, f)
            c.wait_for_eos()
            if s["wait"]:
                c.wait_for_eos()
            if c.poll_event() is not None:
                out["error"] = "poll_event returns something although there is a callback"
            if s["again"]:
                c.stop()
            if threading.get_ident() in cb.threads or len(cb.threads) > 1:
                out["error"] = "callback called in the thread of start()"
            del c
            gc.collect()
            if sys.getrefcount(f) != before:
                out["error"] = "references of the callback: %d, before %d" % (sys.getrefcount(f), before)
            out["runs"].append(cb.got)
        elif m == "stop_in_cb":
            cb = CB(s, c)
            c.start(src, cb.make())
            c.wait_for_eos()
            n0 = len(cb.got)
            c.stop()
            out["runs"].append(list(cb.got))
            cb.client = None
        elif m in ("stop_main", "delete"):
            cb = CB(s)
            if s["none"]:
                c.start(src)
            else:
                c.start(src, cb.make())
            t = time.time() + s["at"] * 0.004
            while time.time() < t and (s["none"] or len(cb.got) < 3 * s["at"]):
                time.sleep(0.0005)
            if m == "stop_main":
                c.stop()
                assert c.eos()
                if s["none"]:
                    out["runs"].append(drain(c))
            else:
                del c
            n0 = len(cb.got)
            time.sleep(0.003)
            if len(cb.got) != n0:
                out["error"] = "callback called after the client was stopped or deleted"
            if not s["none"]:
                out["runs"].append(list(cb.got))
        elif m == "restart":
            for k in range(3):
                if k == 1 and s["again"]:
                    c.start(src, CB(s).make())     # the last one replaces it
                c.start(src)
                if k != 1 or s["wait"]:
                    out["runs"].append(drain(c))
        elif m == "parallel":
            cs = [(hc.Client(), CB(s)) for _ in range(3)]
            for k, cb in cs:
                k.start(src, cb.make())
            c.start(src)
            out["runs"].append(drain(c))
            for k, cb in cs:
                k.wait_for_eos()
                out["runs"].append(cb.got)
            del k, cb, cs
        elif m == "start_in_cb":
            cb, cb2 = CB(s, c), CB(s)
            cb.action = lambda: c.start(src, cb2.make())
            c.start(src, cb.make())
            n = min(s["at"] + 1, s["events"])
            wait_for(lambda: len(cb.got) >= n and (s["at"] >= s["events"] or len(cb2.got) >= s["events"]))
            c.wait_for_eos()
            c.stop()
            out["runs"] += [list(cb.got)] + ([list(cb2.got)] if s["at"] < s["events"] else [])
            cb.client = cb.action = None
        elif m == "drop_in_cb":
            cb, held = CB(s), [c]
            cb.action = held.clear
            c.start(src, cb.make())
            del c
            n = min(s["at"] + 1, s["events"])
            wait_for(lambda: len(cb.got) >= n)
            time.sleep(0.003)
            held.clear()
            out["runs"].append(list(cb.got))
        elif m == "pollers":
            gots, errs = [[], [], []], []
            def poll(g):
                try:
                    while True:
                        done = c.eos()
                        e = c.poll_event()
                        if e is not None:
                            g.append(list(e))
                        elif done:
                            return
                        else:
                            time.sleep(0.0002)
                except Exception:
                    errs.append(traceback.format_exc()[-500:])
            old, gc_old = sys.getswitchinterval(), gc.get_threshold()
            sys.setswitchinterval(1e-5)
            gc.set_threshold(7)
            c.start(src)
            ts = [threading.Thread(target=poll, args=(g,)) for g in gots]
            for t in ts:
                t.start()
            quit = time.time() + 20
            while any(t.is_alive() for t in ts) and time.time() < quit:
                Garbage()
                time.sleep(0)
            for t in ts:
                t.join()
            sys.setswitchinterval(old)
            gc.set_threshold(*gc_old)
            if errs:
                out["error"] = errs[0]
            out["merge"] = gots
        elif m == "late":
            sk = socket.socket()
            sk.bind(("127.0.0.1", 0))
            cb, errs = CB(s), []
            def start():
                try:
                    c.start("127.0.0.1:%d" % sk.getsockname()[1], cb.make())
                except Exception:
                    errs.append(traceback.format_exc()[-500:])
            t = threading.Thread(target=start)
            t.start()
            time.sleep(s["at"] * 0.002)
            if s["again"]:          # nobody ever answers
                def quiet():        # a stop() that comes before the other thread's start() has begun has nothing to stop
                    stopped(c)
                    return not t.is_alive()
                wait_for(quiet)
                sk.close()
                t.join()
            else:
                srv2 = Server(path, s["chunk"], True, sk)
                t.join()
                c.wait_for_eos()
                c.stop()
                srv2.close()
                out["runs"].append(list(cb.got))
            if errs:
                out["error"] = errs[0]
        elif m == "stop_many":
            cb, errs = CB(s, c), []
            cb.action = c.stop
            c.start(src, cb.make())
            def stop():
                try:
                    c.stop()
                except Exception:
                    errs.append(traceback.format_exc()[-500:])
            ts = [threading.Thread(target=stop) for _ in range(4)]
            wait_for(lambda: len(cb.got) >= min(s["at"] // 2, s["events"]))
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            n0 = len(cb.got)
            time.sleep(0.002)
            if len(cb.got) != n0:
                out["error"] = "callback called after the client was stopped"
            if errs:
                out["error"] = errs[0]
            out["runs"].append(list(cb.got))
            cb.client = cb.action = None
        elif m == "leak":
            def once(keep):
                cb = CB(s)
                c.start(src, *([] if s["none"] else [cb.make()]))
                c.wait_for_eos()
                r = drain(c) if s["none"] else cb.got
                n = len(r)
                if keep:
                    out["runs"].append(r)
                return n
            c.start(src)
            once(False)
            tracemalloc.start()
            n = once(False)
            gc.collect()
            reps = max(3, 1500 // max(n, 1))
            m0 = tracemalloc.get_traced_memory()[0]
            for k in range(reps):
                once(False)
            gc.collect()
            m1 = tracemalloc.get_traced_memory()[0]
            tracemalloc.stop()
            if n and m1 - m0 > 6 * n * reps + 4000:
                out["error"] = "%d events delivered and dropped, %d bytes more are in use" % (n * reps, m1 - m0)
            once(True)
    except AssertionError:
        out["error"] = traceback.format_exc()[-600:]
    except RuntimeError as e:
        out["error"] = "RuntimeError: %s" % e
    except Exception as e:
        out["error"] = traceback.format_exc()[-900:]
    finally:
        if srv:
            srv.close()
    return out


res = []
for n, s in enumerate(spec["scenarios"]):
    with open(os.path.join(D, "c.at"), "w") as f:
        f.write(json.dumps(s))
    try:
        res.append(scenario(n, s))
    except BaseException:
        res.append(dict(broken=traceback.format_exc()[-1500:]))
with open(os.path.join(D, "c.out"), "w") as f:
    json.dump(res, f)
with open(os.path.join(D, "c.at"), "w") as f:
    f.write("exit")
if spec["exit"] and spec["scenarios"]:
    # the interpreter ends while a client is reading
    s = dict(spec["scenarios"][-1], raising=0)
    if s["mode"] != "stop_in_cb":
        srv = Server(os.path.join(D, "c.%d.htdump" % (len(res) - 1)), 3, False)
        keep = hc.Client()
        keep.start(srv.address, CB(dict(s, mode="callback")).make())
        time.sleep(0.002)

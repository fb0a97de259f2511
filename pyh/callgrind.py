"""C17: generated sets of nested spans through the real converter executable; the callgrind files against a model of the call graph."""
import copy, glob, json, os, re
import chrome
import htwire as W

KS = [dict(name="HT_StringMappingEvent", base="HT_Event", id=4, own=chrome.OWN["HT_StringMappingEvent"]),
      dict(name="HT_CallstackBaseEvent", base="HT_Event", id=5, own=chrome.OWN["HT_CallstackBaseEvent"]),
      dict(name="HT_CallstackIntEvent", base="HT_CallstackBaseEvent", id=6, own=chrome.OWN["HT_CallstackIntEvent"]),
      dict(name="HT_CallstackStringEvent", base="HT_CallstackBaseEvent", id=7, own=chrome.OWN["HT_CallstackStringEvent"]),
      dict(name="Extra", base="HT_CallstackStringEvent", id=9, own=[["u", 4, "value"]])]


class Component(chrome.Component):
    fmt = "callgrind"

    # ---- generation: spans = [thread, start, stop, label (str or int)] -------------------------------------------------
    def gen(self, r, index):
        spans, ids = [], list(range(r.randint(1, 5)))
        labels = ["l%d" % i for i in range(r.randint(1, 6))] + [W.gen_text(r, 20, bad="\n\r'()") or "x" for _ in range(2)]
        for t in r.sample([0, 1, 2, 7, 4242, 0xffffffff, r.getrandbits(32)], r.choice([1, 1, 2, 3, 5])):
            self.forest(r, spans, t, labels, ids)
        order = r.weighted(3, 2, 1)
        if order == 0:       # as recorded: a span is emitted when it stops
            spans.sort(key=lambda s: (s[2], -s[1]))
        elif order == 1:
            r.shuffle(spans)
        else:
            spans.sort(key=lambda s: (s[0], s[1], -s[2]), reverse=r.chance(1, 2))
        live = self.gen_live(r)
        if live:
            live["early"] = False
        return dict(live=live, big=r.chance(1, 4), spans=spans, mapping=[[i, r.choice(labels)] for i in ids if r.chance(2, 3)], classes=[r.choice([3, 4]) for _ in spans], out="out")

    def forest(self, r, spans, t, labels, ids):
        base = r.scaled(62) if r.chance(1, 2) else 0
        budget = [r.choice([1, 3, 8, 20, 60])]
        style = r.weighted(4, 3, 2)      # gaps between all boundaries / touching and equal starts or ends / dense small numbers (ambiguous cases, zero durations)

        def span(lo, hi, depth):
            """a span somewhere in [lo, hi]; returns its end"""
            if style == 0:
                a = lo + r.randint(1, max(1, (hi - lo) // 4))
                b = r.randint(a + 1, max(a + 1, hi - 1))
                if b >= hi:
                    return None
            else:
                a = lo if r.chance(1, 2) else r.randint(lo, hi)
                b = hi if r.chance(1, 4) else a if r.chance(1, 10 if style == 1 else 4) else r.randint(a, hi)
            lab = r.choice(ids) if ids and r.chance(1, 4) else r.choice(labels)
            spans.append([t, a, b, lab])
            budget[0] -= 1
            p = a
            while budget[0] > 0 and depth < 12 and r.chance(3, 5):
                p = span(p, b, depth + 1)
                if p is None:
                    break
            return b
        hi = base
        while budget[0] > 0:
            lo = hi + (r.randint(1, 50) if style == 0 else r.choice([0, 0, 1, 5]))
            hi = lo + (r.randint(2, 1 << r.randint(4, 30)) if style < 2 else r.randint(0, 12))
            if span(lo, hi, 0) is None:
                break

    # ---- model ---------------------------------------------------------------------------------------------------------
    def label(self, case, l):
        if isinstance(l, str):
            return l
        for i, n in case["mapping"]:
            if i == l:
                return n
        return str(l)

    def model(self, case):
        """per thread: dict(paths={path: [self, {childpath: [calls, inclusive]}]} or None if the nesting is not unique, root, labels)"""
        out = {}
        for s in case["spans"]:
            out.setdefault(s[0], []).append((s[1], s[2], self.label(case, s[3])))
        res = {}
        for t, ss in out.items():
            unique, parents = True, []
            for i, (a, b, l) in enumerate(ss):
                c = [j for j, (x, y, _) in enumerate(ss) if j != i and x <= a and b <= y]
                if any(ss[j][:2] == (a, b) for j in c):
                    unique = False
                    break
                # innermost: the containing span contained in all other containing ones
                inner = [j for j in c if all(k == j or (ss[k][0] <= ss[j][0] and ss[j][1] <= ss[k][1]) for k in c)]
                if c and len(inner) != 1:
                    unique = False
                    break
                parents.append(inner[0] if c else -1)
            e = dict(unique=unique, n=len(ss), dur={})
            for a, b, l in ss:
                x = e["dur"].setdefault(l, [0, 0])
                x[0] += 1
                x[1] += b - a
            if unique:
                def path(i):
                    return ss[i][2] + "()" + ("'" + path(parents[i]) if parents[i] >= 0 else "")
                tot, par, cnt = {}, {}, {}
                for i, (a, b, l) in enumerate(ss):
                    p = path(i)
                    tot[p] = tot.get(p, 0) + b - a
                    cnt[p] = cnt.get(p, 0) + 1
                    par[p] = path(parents[i]) if parents[i] >= 0 else None
                paths = {p: [tot[p], {}] for p in tot}
                for p, q in par.items():
                    if q is not None:
                        paths[q][0] -= tot[p]
                        paths[q][1][p] = [cnt[p], tot[p]]
                e["paths"] = paths
                e["merged"] = len(ss) - len(paths)
            res[t] = e
        return res

    def stream(self, case):
        w = W.Writer(case["big"])
        w.endian()
        for k in KS:
            w.klass(k["id"], k["name"], k["base"], k["own"])
        for i, l in case["mapping"]:
            w.event(4, 1, 1, [("u", 8, i), ("s", 8, l.encode())])
        for s, c in zip(case["spans"], case["classes"]):
            v = [("u", 8, s[2] - s[1]), ("u", 4, s[0])]
            if isinstance(s[3], str):
                w.event(KS[c]["id"], s[1], 1, v + [("s", 8, s[3].encode())] + ([("u", 4, 7)] if c == 4 else []))
            else:
                w.event(6, s[1], 1, v + [("u", 8, s[3])])
        return bytes(w.o), None

    def run_case(self, case, d):
        for f in glob.glob(os.path.join(d, "out*")):
            os.unlink(f)
        cmd, _ = self.write_inputs(case, d)
        live = case.get("live")
        bad = self.execute_live(cmd, d, self.stream(case)[0], live, 0) if live else self.execute(cmd, d)
        if bad:
            return bad
        exp = self.model(case)
        r = self.check(exp, d)
        if r and live:      # Enter may have come before everything was read
            for f in glob.glob(os.path.join(d, "out*")):
                os.unlink(f)
            bad = self.execute_live(cmd, d, self.stream(case)[0], live, 4)
            if bad:
                return bad
            r = self.check(exp, d)
        if r:
            return dict(status="fail", key=r[0], msg=r[1], sample=json.dumps(case)[:2000])
        u = [e for e in exp.values() if e["unique"]]
        return dict(status="ok", nontrivial=any(any(v[1] for v in e["paths"].values()) for e in u), cases=1,
                    labels=dict(threads=len(exp), unique_threads=len(u), spans=sum(e["n"] for e in exp.values()), merged_calls=sum(e["merged"] for e in u)),
                    sample="%d threads, spans of the first: %s" % (len(exp), case["spans"][:6]))

    def parse(self, text):
        """[(name, self cost, [(callee, calls, inclusive)])]"""
        fns, cur, i, ls = [], None, 0, text.split("\n")
        while i < len(ls):
            l = ls[i]
            if l.startswith("fn="):
                m = re.fullmatch(r"1 (-?\d+)", ls[i + 1])
                if not m:
                    raise ValueError("line %d: cost line expected: %r" % (i + 2, ls[i + 1]))
                cur = (l[3:], int(m.group(1)), [])
                fns.append(cur)
                i += 2
            elif l.startswith("cfn="):
                m, m2 = re.fullmatch(r"calls=(\d+) 1", ls[i + 1]), re.fullmatch(r"1 (-?\d+)", ls[i + 2])
                if cur is None or not m or not m2:
                    raise ValueError("line %d: malformed call: %r" % (i + 1, ls[i:i + 3]))
                cur[2].append((l[4:], int(m.group(1)), int(m2.group(1))))
                i += 3
            else:
                if cur is not None and l:
                    raise ValueError("line %d: unexpected %r" % (i + 1, l))
                i += 1
        return fns

    def check(self, exp, d):
        files = {os.path.basename(f) for f in glob.glob(os.path.join(d, "out*"))}
        want = {"out.%d" % t for t in exp}
        if files != want:
            return ("files", "files %s, expected %s" % (sorted(files), sorted(want)))
        for t, e in exp.items():
            text = open(os.path.join(d, "out.%d" % t), encoding="utf8", newline="\n").read()
            if "\nthread: %d\n" % t not in text or "\nevents: Duration\n" not in text:
                return ("header", "thread %d: header %r" % (t, text[:200]))
            try:
                fns = self.parse(text)
            except (ValueError, IndexError) as x:
                return ("format", "thread %d: %s" % (t, x))
            names = [f[0] for f in fns]
            if len(set(names)) != len(names):
                return ("twice", "thread %d: function listed twice: %s" % (t, [n for n in names if names.count(n) > 1][:2]))
            got = {n: [c, {x[0]: [x[1], x[2]] for x in calls}] for n, c, calls in fns}
            if e["unique"]:
                for p in set(got) | set(e["paths"]):
                    if got.get(p) != e["paths"].get(p):
                        return ("graph", "thread %d: function %s is %s (self cost, calls), expected %s" % (t, p, got.get(p), e["paths"].get(p)))
            # holds for every way to resolve ambiguous nesting
            cnt, dur = {}, {}
            callee = {c: x for n, (s, cs) in got.items() for c, x in cs.items()}
            for n, (s, cs) in got.items():
                inc = s + sum(x[1] for x in cs.values())
                l = n.split("'")[0][:-2]
                dur[l] = dur.get(l, 0) + inc
                if n in callee:
                    cnt[l] = cnt.get(l, 0) + callee[n][0]
                    if callee[n][1] != inc:
                        return ("inclusive", "thread %d: inclusive cost of %s is %d where it is called, %d where it is listed" % (t, n, callee[n][1], inc))
                if s < 0:
                    return ("self", "thread %d: negative self cost %d of %s" % (t, s, n))
            for c in callee:
                if c not in got:
                    return ("unlisted", "thread %d: called function %s is not listed" % (t, c))
            for l, (n, x) in e["dur"].items():
                if dur.get(l) != x:
                    return ("duration", "thread %d: total duration of %s is %s, expected %d" % (t, l, dur.get(l), x))
        return None

    def shrink(self, case):
        n = len(case["spans"])
        step = n // 2
        while step >= 1:
            for i in range(0, n, step):
                c = copy.deepcopy(case)
                del c["spans"][i:i + step]
                del c["classes"][i:i + step]
                if c["spans"]:
                    yield c
            step //= 2
        if case.get("live"):
            c = copy.deepcopy(case)
            c["live"] = None
            yield c
        if case["big"]:
            c = copy.deepcopy(case)
            c["big"] = False
            yield c
        for i, s in enumerate(case["spans"]):
            if s[3] != "a":
                c = copy.deepcopy(case)
                c["spans"][i][3] = "a"
                yield c

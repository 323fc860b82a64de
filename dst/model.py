"""Plans, objects and steps: generation, text form, results."""
import hashlib, json, random, re


def fmt(v):
    if isinstance(v, float):
        return repr(v) if v != int(v) else str(int(v))
    if isinstance(v, (list, tuple)):
        return ",".join(fmt(x) for x in v)
    return str(v)


def kvs(d):
    return " ".join("%s=%s" % (k, fmt(v)) for k, v in d.items())


class Plan:
    """cfg: dict; objs: list of spec dicts; sbs: list of builder spec dicts;
    steps: list of dicts {uid, ph, t, o, a: {op, ...}, dep: uid of the mk step or None, f: [fault dicts], slot,
    aft: uids of earlier steps in the list, of other threads, that have to be done before}; sw: text or None"""

    def __init__(self):
        self.cfg, self.objs, self.sbs, self.steps, self.sw = {}, [], [], [], None
        self.nuid = 0

    def copy(self):
        p = Plan()
        p.cfg, p.objs, p.sbs = dict(self.cfg), list(self.objs), list(self.sbs)
        p.steps = [dict(s, f=[dict(f) for f in s["f"]]) for s in self.steps]
        p.sw, p.nuid = self.sw, self.nuid
        return p

    def add(self, a, o=-1, ph=0, t=0, dep=None, slot=None, f=()):
        s = {"uid": self.nuid, "ph": ph, "t": t, "o": o, "a": a, "dep": dep, "slot": slot, "f": list(f)}
        self.nuid += 1
        self.steps.append(s)
        return s

    def ids(self):
        return {s["uid"]: i for i, s in enumerate(self.steps)}

    def text(self):
        ids = self.ids()
        out = []
        cfg = dict(self.cfg)
        if self.sw is not None:
            cfg["record"] = 0
        out.append("cfg " + kvs(cfg))
        for i, o in enumerate(self.objs):
            out.append("obj %d %s" % (i, kvs(o)))
        for i, o in enumerate(self.sbs):
            out.append("sb %d %s" % (i, kvs(o)))
        for i, s in enumerate(self.steps):
            d = {"ph": s["ph"], "t": s["t"], "o": s["o"]}
            d.update(s["a"])
            if s["slot"] is not None:
                d["slot"] = s["slot"]
            if s.get("aft"):
                d["aft"] = [ids[u] for u in s["aft"] if u in ids]
            out.append("step %d %s" % (i, kvs(d)))
        for i, s in enumerate(self.steps):
            for f in s["f"]:
                d = dict(f)
                if "steps" in d:
                    d["steps"] = [ids[u] for u in d["steps"] if u in ids]
                out.append("fault step=%d %s" % (i, kvs(d)))
        if self.sw:
            out.append("sw " + self.sw)
        return "\n".join(out) + "\ngo\n"

    def to_json(self):
        return {"cfg": self.cfg, "objs": self.objs, "sbs": self.sbs, "steps": self.steps, "sw": self.sw}

    @staticmethod
    def from_json(d):
        p = Plan()
        p.cfg, p.objs, p.sbs, p.steps, p.sw = d["cfg"], d["objs"], d["sbs"], d["steps"], d["sw"]
        p.nuid = max([s["uid"] for s in p.steps] + [0]) + 1
        return p

    def without(self, uids):
        """drops the steps and whatever needs them"""
        uids = set(uids)
        p = self.copy()
        while True:
            more = {s["uid"] for s in p.steps if s["uid"] not in uids and (s["dep"] in uids or any(u in uids for u in s.get("aft", ())))}
            sbs = {s["o"] for s in p.steps if s["uid"] not in uids and s["a"]["op"] == "sb"}
            more |= {s["uid"] for s in p.steps if s["uid"] not in uids and s["a"]["op"] == "build" and s["o"] >= 0
                     and "sb" in p.objs[s["o"]] and p.objs[s["o"]]["sb"] not in sbs}
            if not more:
                break
            uids |= more
        p.steps = [s for s in p.steps if s["uid"] not in uids]
        for s in p.steps:
            fs = []
            for f in s["f"]:
                if "steps" in f:
                    f = dict(f, steps=[u for u in f["steps"] if u not in uids])
                    if not f["steps"]:
                        continue
                fs.append(f)
            s["f"] = fs
        nested = {u for s in p.steps for f in s["f"] for u in f.get("steps", [])}
        p.steps = [s for s in p.steps if s["ph"] != 2 or s["uid"] in nested]
        return p

    def prune_objs(self):
        used = sorted({s["o"] for s in self.steps if s["o"] >= 0 and s["a"]["op"] not in ("sb", "dropsb")})
        p = self.copy()
        m = {o: i for i, o in enumerate(used)}
        p.objs = [self.objs[o] for o in used]
        for s in p.steps:
            if s["o"] >= 0 and s["a"]["op"] not in ("sb", "dropsb"):
                s["o"] = m[s["o"]]
        return p


class Result:
    __slots__ = ("R", "notes", "viol", "stat", "sched", "fired", "marks", "prof", "text", "order", "sites", "afsites")

    def __init__(self, text):
        self.text = text
        self.R, self.notes, self.marks, self.prof, self.fired, self.stat = {}, [], [], {}, {}, {}
        self.order = []
        self.sites, self.afsites = {}, []
        self.viol = self.sched = None
        for l in text.split("\n"):
            if l.startswith("R "):
                w = l.split(" ", 13)
                d = {"status": w[2]}
                for x in w[3:12]:
                    k, v = x.split("=")
                    d[k] = v if k in ("d", "cbh") else int(v)
                d["text"] = w[-1] if len(w) > 12 else ""
                self.R[int(w[1])] = d
                self.order.append(int(w[1]))
            elif l.startswith("NOTE "):
                m = re.match(r"NOTE (\S+) step=(-?\d+) ?(.*)", l)
                self.notes.append((m.group(1), int(m.group(2)), m.group(3)))
            elif l.startswith("VIOL "):
                m = re.match(r"VIOL (\S+) tid=(-?\d+) step=(-?\d+) (.*)", l)
                self.viol = (m.group(1), int(m.group(3)), m.group(4)) if m else ("crash", -1, l)
            elif l.startswith("STAT "):
                self.stat = dict(x.split("=") for x in l[5:].split())
            elif l.startswith("SCHED"):
                self.sched = l[6:].strip()
            elif l.startswith("AFSITE "):
                self.afsites.append(l.split()[1])
            elif l.startswith("SITES "):
                w = l.split()
                self.sites[int(w[1])] = [(k, int(a), int(b), int(c)) for k, a, b, c in (x.split(":") for x in w[2:])]
            elif l.startswith("MARK "):
                self.marks.append([int(x) for x in l.split()[1:]])
            elif l.startswith("FIRED"):
                for x in l.split()[1:]:
                    k, v = x.split("=")
                    self.fired[k] = int(v)
            elif l.startswith("PROFSUM "):
                self.prof["sum"], self.prof["paths"] = [int(x) for x in l.split()[1:3]]
            elif l.startswith("PROF "):
                w = l[5:].strip().split("\t")
                self.prof.setdefault("lines", []).append(w)

    def hash(self):
        return self.stat.get("runhash", "?") + hashlib.sha256(
            "\n".join(l for l in self.text.split("\n") if l.startswith(("R ", "VIOL", "NOTE"))).encode()).hexdigest()[:12]


# ------------------------------------------------------------------ objects
BOUND = [[0, 1], [1, 0], [1, 1], [.3, -1]]


def gen_builder(rng, kind, tol):
    b = rng.choice(["def", "auto", "auto", "uni", "uni", "user"]) if kind not in "c" else rng.choice(["auto", "uni", "uni", "user"])
    d = {"b": b}
    if b in ("uni", "user"):
        d["n"] = rng.choice([1, 2, 3, 5, 8, 13] if kind != "c" else [1, 2, 3, 5])
        if rng.random() < .08: d["n"] = rng.choice([20, 33, 48] if kind != "c" else [7, 11])
    return d


def gen_spec(rng, kinds="mmmmhhppsstc", wide=True, user=True):
    kind = rng.choice(kinds)
    s = {"kind": kind, "sc": "l" if wide and kind != "c" and rng.random() < .3 else "d"}
    tol = rng.choice([1e-3, 1e-4, 1e-5, 1e-5, 1e-6, 1e-7] * 3 + [1e-9, 1e-2, 1e-11])
    if kind in "mp":
        s["pot"] = rng.choice([0, 1, 1, 2, 3, 4, 6, 7, 8, 9, 12] * 2 + [13, 14, 15])
        s["lo"], s["hi"] = rng.choice([(0, 3.141592653589793), (-1, 2), (0, 1), (-4, 4), (.1, 3), (-2.5, 2.5), (0, 5), rng.choice([(-8, 8), (0, 12), (1, 1.0625), (-20, .5), (-3.25, -1)])])
        s["c"] = [rng.choice([1, 2, .5, 5, -1]), rng.choice([.5, 1, 2]), .25]
        if kind == "p" and rng.random() < .5:
            s["K"] = rng.choice([[-1, 0, 0, -1], [1, .5, 0, 1], [1, 0, 0, 1]])
    elif kind == "h":
        s["pot"] = rng.choice([1, 2, 2, 5, 7, 8, 4, 0])
        s["hi"] = rng.choice([1, 3, 5, 8])
        s["c"] = [rng.choice([1, 2, .5, 5]), 1]
    elif kind in "ts":
        s["pp"], s["pw"] = rng.choice([(0, 0), (10, 10), (0, 10), (10, 11), (11, 0), (11, 10)] * 3 + [(13, 0), (0, 13), (14, 10), (10, 14), (15, 0), (10, 15), (15, 14)])
        s["pot"] = rng.choice([0, 1, 2, 6, 8])
        s["lo"], s["hi"] = rng.choice([(0, 3.141592653589793), (0, 1), (-1, 1), (.5, 4)])
        s["c"] = [rng.choice([1, 2, 3]), .5, .25]
    else:
        s["dim"] = rng.choice([1, 2, 2, 3])
        s["pot"] = rng.choice([0, 1, 2, 6])
        s["lo"], s["hi"] = rng.choice([(0, 3.141592653589793), (0, 1), (-1, 1)])
        s["c"] = [rng.choice([1, 2, .5]), .5, .25]
        tol = rng.choice([1e-2, 1e-3])
    s["tol"] = tol
    if kind != "t" and kind != "s":
        s.update(gen_builder(rng, kind, tol))
        if s["b"] == "user" and not user:
            s["b"] = "uni"
        if s["pot"] == 3 and s["b"] == "auto" and s["lo"] < s["c"][1] < s["hi"] and rng.random() < .7:
            s["jumps"] = [s["c"][1]]
        if kind == "m" and s["b"] != "def":
            s["ctor"] = rng.choice([0, 1])
    if kind != "t" and rng.random() < .5:
        s["envdie"] = rng.choice([1, 1, 2])
    return s


def vary_spec(rng, s):
    """a problem that differs from s in one respect"""
    s = {k: (list(v) if isinstance(v, list) else v) for k, v in s.items()}
    k = s["kind"]
    for _ in range(6):
        w = rng.choice(["c", "c", "pot", "pot", "tol", "hi", "b", "K", "pw", "sc"])
        if w == "c":
            s["c"][0] = rng.choice([x for x in (1, 2, .5, 5, 3) if x != s["c"][0]])
        elif w == "pot":
            s["pot"] = rng.choice([x for x in ([1, 2, 7, 8, 4, 0] if k == "h" else [0, 1, 2, 6]) if x != s["pot"]])
            s.pop("jumps", None)
        elif w == "tol":
            s["tol"] = s["tol"] * rng.choice([.1, 10]) if 1e-6 <= s["tol"] <= 1e-4 else 1e-5
        elif w == "hi":
            s["hi"] = s["hi"] + rng.choice([1, .5, -.25])
        elif w == "b" and s.get("b") in ("uni", "user"):
            s["n"] = s["n"] + 1 if k == "c" else rng.choice([x for x in (1, 2, 3, 5, 8) if x != s["n"]])
        elif w == "K" and k == "p":
            s["K"] = [-1, 0, 0, -1] if s.get("K", [1])[0] == 1 else [1, 0, 0, 1]
        elif w == "pw" and k in "ts":
            s["pp"], s["pw"] = rng.choice([x for x in [(0, 0), (10, 10), (0, 10), (10, 11), (11, 0)] if x != (s["pp"], s["pw"])])
        elif w == "sc" and k != "c" and rng.random() < .5:
            s["sc"] = "l" if s["sc"] == "d" else "d"
        else:
            continue
        break
    return s


def vary_op(rng, spec, pool, a, mk):
    """the query with one argument changed"""
    a, mk = dict(a), dict(mk) if mk else None
    d = mk if mk is not None and rng.random() < .6 else a
    ks = [k for k in d if k in ("E", "E2", "l", "r", "h", "idx", "i", "x", "x2", "xs", "y", "k", "f", "one", "batch")]
    if not ks:
        return a, mk
    k = rng.choice(ks)
    v = d[k]
    if k in ("E", "E2"):
        y = rng.choice(pool.E) if rng.random() < .4 else v + rng.choice([1e-9, -1e-9, 1e-3, .5])
        if k == "E" and "E2" in d: d["E2"] = d["E2"] + y - v
        elif k == "E2": y = max(y, d["E"] + 1)
        d[k] = y
    elif isinstance(v, int) and k == "r": d[k] = -v
    elif k in ("l", "r") and len(v) == 2:
        if spec["kind"] == "h": d["l"] = d["r"] = rng.choice(BOUND)
        elif spec["kind"] == "t": d[k] = rng.choice(BOUND)
        elif rng.random() < .4 and "l" in d and "r" in d and len(d["l"]) == len(d["r"]): d["l"], d["r"] = d["r"], d["l"]
        else: d[k] = rng.choice(BOUND)
    elif k in ("l", "r"):
        d[k] = [1, 0, .3, 1] if v != [1, 0, .3, 1] else [0, 1, 0, 0]
    elif k in ("h", "one", "batch"):
        if k != "h": return a, mk
        d[k] = 1 - v
    elif k == "idx": d[k] = rng.choice([x for x in (-1, 0, 1, 2) if x != v])
    elif k == "i":
        s = rng.choice([1, 1, -1]) if v else 1
        d["i"], d["j"] = v + s, d["j"] + s
    elif k in ("x", "x2"):
        d[k] = rng.choice([x for x in pool.x if spec["kind"] != "h" or x >= 0] or [v])
    elif k == "xs":
        xs = list(v)
        w = rng.random()
        if w < .4: xs[rng.randrange(len(xs))] = rng.choice(pool.x)
        elif w < .7: xs = xs[1:] or xs
        else: xs.append(rng.choice(pool.x))
        if v == sorted(v) and spec["kind"] == "h": xs.sort()
        d[k] = xs
    elif k == "y": d[k] = rng.choice([[1, 0, 0, 1], [1, 1, 1, -1], [.5, 1, 0, 2]])
    elif k == "k": d[k] = rng.choice([0, 1, 2, 5])
    elif k == "f": d[k] = rng.choice([.5, 1, .25])
    return a, mk


class Pool:
    """argument pools of one object: small, so that equal arguments meet again"""

    def __init__(self, rng, spec):
        self.E = rng.sample([-1, -.3, .3, 1, 2.5, 4, 7.7, 12.25, 30], 3)
        if rng.random() < .2: self.E[0] = rng.choice([0, -15, -100, 64, 150, 700, 5000])
        lo, hi = spec.get("lo", -spec.get("hi", 1)), spec.get("hi", 1)
        fr = rng.sample([.1, .25, .37, .5, .61, .75, .9, 1 / 3], 4)
        self.x = [lo, hi] + [lo + (hi - lo) * f for f in fr]
        self.x = [round(x, 4) if x not in (lo, hi) else x for x in self.x]
        self.lo, self.hi = lo, hi
        self.b = rng.sample(BOUND, 2)
        self.i = rng.choice([0, 0, 1, 2, 3] * 5 + [7, 12, 20])

    def xs(self, rng, n=None, srt=False, out=True):
        n = n or rng.choice([1, 2, 3, 5, 8, 12] * 4 + [20, 40])
        r = [rng.choice(self.x) if rng.random() < .6 else round(rng.uniform(self.lo, self.hi), 3) for _ in range(n)]
        if out and rng.random() < .1:
            r.append(self.hi + 1)
        if rng.random() < .1:
            r.append(r[0])
        return sorted(r) if srt else r


def gen_op(rng, spec, pool):
    """one query: (args, args of the mk step or None)"""
    k = spec["kind"]
    E = rng.choice(pool.E) if rng.random() < .8 else round(rng.uniform(-2, 40), 2)
    l, r = rng.choice(pool.b), rng.choice(pool.b)
    if k == "h":
        r = l if rng.random() < .95 else r
    i = pool.i if rng.random() < .6 else rng.choice([0, 1, 2, 5])
    j = i + rng.choice([1, 1, 2, 3] * 8 + [5, 9, 36])
    srt = k == "h" and rng.random() < .93
    xs = pool.xs(rng, srt=srt)
    inx = [x for x in pool.x if k != "h" or x >= 0] or [0]
    x, x2 = rng.choice(inx), rng.choice(inx)
    if rng.random() < .04:
        x2 = pool.hi + .5
    h = rng.choice([1, 1, 1, 0])
    lr = {"l": l, "r": r}
    y4 = rng.choice([[1, 0, 0, 1], [1, 1, 1, -1], [.5, 1, 0, 2]])
    y2 = l + [0, 0]
    if k in "mh":
        op = rng.choice(["eidx"] * 3 + ["eigs", "eigs", "eerr", "eerr", "minp", "efun", "efun", "pairs", "pairs", "evmk", "evmk", "evpair",
                         "prop", "prop", "prop2", "merr", "merr", "sect", "scopy"])
    elif k == "p":
        op = rng.choice(["eidx", "eigs", "pairs", "pairsE", "efun", "evpair", "prop", "prop2", "prop2", "merr", "merr", "sect"])
    elif k == "s":
        op = rng.choice(["eidx", "eidx", "eerr", "pairs", "evpair", "evpair"])
    elif k == "t":
        op = rng.choice(["ltq", "ltq", "ltcopy"])
    else:
        op = rng.choice(["prop", "prop", "propc", "propc", "psi", "sect", "csef"])
    if op == "eidx":
        a = {"op": op, "i": i, "j": j}
        if k != "p": a.update(lr)
        if k == "m" and rng.random() < .2 or k == "h" and rng.random() < .4: a["one"] = 1
    elif op == "eigs":
        a = {"op": op, "E": E, "E2": E + rng.choice([2, 8, 15] * 4 + [40, 90])}
        if k != "p": a.update(lr)
        if k in "mh" and rng.random() < .3: a["one"] = 1
    elif op == "eerr":
        a = dict({"op": op, "E": E, "idx": rng.choice([-1, 0, 1, 2, 5])}, **lr)
    elif op == "minp":
        a = {"op": op}
    elif op == "efun":
        a = {"op": op, "E": E, "xs": xs, "batch": 1}
        if k != "p": a.update(lr, idx=rng.choice([-1, -1, 0, 1, 4]))
    elif op == "pairs":
        a = {"op": op, "i": i, "j": j, "xs": xs, "batch": 1}
        if k != "p": a.update(lr)
    elif op == "pairsE":
        a = {"op": op, "E": E, "E2": E + rng.choice([3, 10]), "xs": xs, "batch": 1}
    elif op in ("evmk", "evpair"):
        if op == "evmk":
            mk = dict({"op": "mkef", "E": E, "idx": rng.choice([-1, 0, 1, 3])}, **lr)
        else:
            mk = {"op": "mkpair", "i": i, "j": i + rng.choice([1, 2])}
            if k != "p": mk.update(lr)
        return {"op": rng.choice(["ev", "evb", "evb"]), "xs": xs}, mk
    elif op == "prop":
        a = {"op": op, "E": E, "x": x, "x2": x2, "h": h, "l": y2 if rng.random() < .7 else [1, 0, .3, 1]}
        if k == "c": a["y"] = y4
    elif op == "prop2":
        a = {"op": op, "E": E, "x": x, "x2": x2, "h": h, "y": y4}
    elif op == "merr":
        a = {"op": op, "E": E, "h": h}
        if k != "p": a.update(lr)
    elif op in ("sect", "scopy"):
        a = {"op": op, "E": E, "k": rng.choice([0, 0, 1, 2, 5]), "f": rng.choice([.5, 1, .25]), "h": h, "l": y2}
        if op == "scopy" and rng.random() < .5: a["warm"] = 1
    elif op in ("ltq", "ltcopy"):
        a = {"op": op, "x": min(max(x, pool.lo), pool.hi), "l": [.2, 1, 0, 1], "r": [1, 0, .5, 0]}
        if op == "ltcopy" and rng.random() < .7: a["warm"] = 1
    elif op == "propc":
        a = {"op": op, "E": E, "x": x, "x2": x2, "h": h, "y": y4, "r": rng.choice([1, -1])}
    elif op == "psi":
        a = {"op": op, "E": E, "x": x, "x2": x2, "y": y4}
    elif op == "csef":
        a = {"op": op, "E": E, "xs": xs + rng.choice([[], [], [pool.hi], [pool.hi + 3e-13], [pool.lo - 3e-13]]), "batch": 1}
    return a, None


def gen_orphan(rng, spec, pool):
    """a copy that survives what it was copied from, which is gone afterwards; None for problems without copies"""
    if spec["kind"] not in "mhptc":
        return None
    a = {"op": "sorph", "k": rng.choice([0, 0, 1, 2, 5]), "f": rng.choice([.5, 1, .25]), "h": rng.choice([0, 1]), "warm": rng.choice([0, 1]),
         "l": [.2, 1, 0, 1], "r": [1, 0, .5, 0]}
    if spec["kind"] == "t":
        a["x"] = min(max(rng.choice(pool.x), pool.lo), pool.hi)
    else:
        a["E"] = rng.choice(pool.E)
    return a


def seed_of(*a):
    return int(hashlib.sha256("/".join(str(x) for x in a).encode()).hexdigest()[:15], 16)

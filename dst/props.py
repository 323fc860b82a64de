"""Per property: how plans are made, what counts as an alarm, what an alarm must contain."""
import random
import re
from .model import Plan, Pool, gen_orphan, gen_spec, gen_op, seed_of, vary_op, vary_spec
from .engine import FAULTY, Server
from .pygen import gen_py_op, gen_py_spec, vary_py_op, vary_py_spec
from .jsgen import gen_js_op, gen_js_spec, vary_js_op, vary_js_spec
import simbuild

QUAD = False # objects of float128 take part (their arithmetic is 50 times slower: thorough tier only)
FILLS = ["00", "ff", "5a", "01", "7f", "c0", "3f", "80"]


class Block:
    """objects and operations the plans of one block are made of"""

    def __init__(self, rng, gold, kinds="mmmmhhppsstc", nspec=9, wide=True, maxst=None, quad=None):
        self.rng, self.gold = rng, gold
        self.specs, self.pools, self.ops, self.sbs, self.base = [], [], [], [], []
        for sc in "ddl" if "c" not in kinds else "ddlc": # builders several problems are divided with
            b = rng.choice(["auto", "auto", "uni", "user"])
            d = {"b": b, "btol": rng.choice([1e-3, 1e-5]) if sc != "c" else rng.choice([1e-2, 1e-3]), "sc": sc}
            if b != "auto": d["n"] = rng.choice([2, 3, 5])
            elif sc != "c" and rng.random() < .4: d["jumps"] = rng.choice([[.4], [.3, .625]])
            self.sbs.append(d)
        share = rng.choice([0, 0, .1, .2, .6])
        tries = 0
        while len(self.specs) < nspec and tries < 4 * nspec:
            tries += 1
            base = rng.randrange(len(self.specs)) if self.specs and rng.random() < .4 else None
            s = self.new_spec(kinds, wide) if base is None else self.other_spec(self.specs[base])
            if "sb" in s and not self.fits(s, s["sb"]): s = {k: v for k, v in s.items() if k != "sb"}
            if "sb" not in s and share and rng.random() < share: s = self.with_sb(s) or s
            s = self.change(s)
            if (QUAD if quad is None else quad) and rng.random() < .08 and s["kind"] in "mhps":
                s = {k: v for k, v in s.items() if k != "sb"}
                s["sc"] = "q"
            g = self.ggold(s, {"op": "build"})
            if g is None:
                continue
            self.specs.append(s)
            same = base is not None and all(s.get(k) == self.specs[base].get(k) for k in ("lo", "hi"))
            self.pools.append(self.pools[base] if same else Pool(rng, s))
            self.base.append(self.base[base] if base is not None else len(self.specs) - 1)
            self.ops.append([])
            if rng.random() < .5: self.energies(len(self.specs) - 1)

    def energies(self, k):
        """operations on problem k may ask for its eigenvalues"""
        s, pool = self.specs[k], self.pools[k]
        a = {"op": "eidx", "i": pool.i, "j": pool.i + 2}
        if s.get("cls", s["kind"]) in "tc": return
        if s.get("cls", s["kind"]) != "p": a.update(l=pool.b[0], r=pool.b[0])
        g = self.ggold(s, a)
        if g is None or g["status"] != "ok": return
        E = [float(x) for x in re.findall(r"-?\d+\.\d+(?:e[-+]?\d+)?", g["text"] or "")]
        pool.E += [x for x in E if abs(x) < 1e5][:2]

    def fits(self, s, i):
        """builder i can divide problem s"""
        b = self.sbs[i]
        lo = 0 if s["kind"] == "h" else s.get("lo", 0)
        return s["kind"] in "mhpc" and b["sc"] == ("c" if s["kind"] == "c" else s["sc"]) and all(lo < j < s["hi"] for j in b.get("jumps", ()))

    def with_sb(self, s, i=None):
        """s, divided with a builder it shares with other problems; None: there is none for it"""
        c = [i] if i is not None else range(len(self.sbs))
        c = [k for k in c if self.fits(s, k)]
        if not c:
            return None
        b = self.rng.choice(c)
        s = {k: v for k, v in s.items() if k not in ("b", "n", "jumps", "btol")}
        s.update(b=self.sbs[b]["b"], sb=b)
        if "n" in self.sbs[b]: s["n"] = self.sbs[b]["n"]
        return s

    def ggold(self, s, a, mk=None):
        return self.gold.get(s, a, mk, self.sbs[s["sb"]] if "sb" in s else None)

    def on(self, s, w):
        """operation w on problem s, None when it cannot be used"""
        g = self.ggold(s, w[0], w[1]) if w[2] else None
        return None if g is None else (w[0], w[1], g)

    def finish(self, p):
        """the shared builders the plan needs"""
        need = {o["sb"] for o in p.objs if "sb" in o} - {s["o"] for s in p.steps if s["a"]["op"] == "sb"}
        if need or any(s["a"]["op"] in ("sb", "dropsb") for s in p.steps): p.sbs = self.sbs
        for i in sorted(need):
            p.steps.insert(0, p.add({"op": "sb"}, o=i))
            p.steps.pop()
        return p

    def new_spec(self, kinds, wide):
        return gen_spec(self.rng, kinds, wide)

    def other_spec(self, s):
        return vary_spec(self.rng, s)

    def new_op(self, k):
        return gen_op(self.rng, self.specs[k], self.pools[k])

    def other_op(self, k, a, mk):
        return vary_op(self.rng, self.specs[k], self.pools[k], a, mk)

    def change(self, s):
        return s

    def op(self, k, fresh=.25):
        """an operation on spec k: (args, mk args, reference)"""
        rng = self.rng
        menu = self.ops[k]
        if menu and (len(menu) >= 14 or rng.random() > fresh):
            return rng.choice(menu)
        for _ in range(8):
            a, mk = self.new_op(k)
            g = self.ggold(self.specs[k], a, mk)
            if g is not None:
                menu.append((a, mk, g))
                return menu[-1]
        return rng.choice(menu) if menu else ({"op": "yield"}, None, None)

    def kin(self, k):
        """a problem that differs little from problem k"""
        c = [i for i in range(len(self.specs)) if i != k and self.base[i] == self.base[k]]
        return self.rng.choice(c) if c else k

    def as_op(self, k, a, mk):
        """the operation on spec k, None when it cannot be used"""
        g = self.ggold(self.specs[k], a, mk)
        return None if g is None else (a, mk, g)

    def near(self, k, w):
        """an operation that differs from w in one argument"""
        if w[2] is None:
            return w
        a, mk = self.other_op(k, w[0], w[1])
        return self.as_op(k, a, mk) or w

    def bgold(self, spec, sbs):
        return self.ggold(spec, {"op": "build"})


SLOTS = 48  # eigenfunctions one problem can have in a plan (slot[] in sim/ops_impl.h)


class Maker:
    """a plan under construction"""

    def __init__(self, blk, mt=False):
        self.b, self.rng, self.p = blk, blk.rng, Plan()
        self.spec_of, self.slots, self.cost = [], {}, 0
        r = self.rng
        c = self.p.cfg
        c["seed"] = r.randrange(1, 1 << 30)
        c["heap"] = r.choice([0, 1, 1, 2])
        c["order"] = r.randrange(4)
        c["budget"] = 400000000
        if mt:
            c["gap"] = r.choice([20, 60, 200, 200, 1000, 1000, 5000, 50000])
            c["phot"] = r.choice([0, .02, .1, .3])
            c["psync"] = r.choice([0, .3, .8])
            c["palloc"] = r.choice([0, .01, .1])
            c["pcb"] = r.choice([0, .1, .5])
            c["pbound"] = r.choice([0, .3, .9])
            c["maxsw"] = r.choice([5, 50, 500, 2000])
            c["stale"] = r.choice([0, 0, 100, 500])

    def fills(self):
        c, r = self.p.cfg, self.rng
        c["fill"], c["ffill"], c["sfill"] = r.choice(FILLS), r.choice(FILLS), r.choice(FILLS)

    def inst(self, k, spec=None):
        self.p.objs.append(spec or self.b.specs[k])
        self.spec_of.append(k)
        return len(self.p.objs) - 1

    def build(self, o, ph=0, t=0, f=()):
        g = self.b.bgold(self.p.objs[o], self.p.sbs)
        if g: self.cost += g["st"]
        return self.p.add({"op": "build"}, o=o, ph=ph, t=t, f=f)

    def slot(self, o):
        n = self.slots.get(o, 0)
        self.slots[o] = n + 1
        return n if n < SLOTS else None

    def op(self, o):
        """an operation on object o"""
        w = self.b.op(self.spec_of[o])
        if self.p.objs[o] is not self.b.specs[self.spec_of[o]]: w = self.b.on(self.p.objs[o], w) or ({"op": "yield"}, None, None)
        return w

    def query(self, o, ph=0, t=0, f=(), mkphase=None, which=None, fmk=()):
        a, mk, g = which or self.op(o)
        if g: self.cost += g["st"]
        if mk is None:
            return self.p.add(a, o=o, ph=ph, t=t, f=f)
        sl = self.slot(o)
        if sl is None:
            return self.p.add({"op": "yield"}, ph=ph, t=t)
        m = self.p.add(mk, o=o, ph=ph if mkphase is None else mkphase, t=t if mkphase is None else 0, slot=sl, f=fmk)
        return self.p.add(a, o=o, ph=ph, t=t, dep=m["uid"], slot=sl, f=f)


def rnd_n(rng, n):
    """a point among 1..n, with the ends favoured"""
    if n <= 1:
        return 1
    x = rng.random()
    if x < .12: return 1
    if x < .24: return n
    if x < .4: return min(n, 1 + int(rng.expovariate(.3)))
    return rng.randint(1, n)


TARGETED = {} # allocation sites faults have been aimed at by this worker: how often


def alloc_fault(rng, g):
    """an allocation to fail: anywhere, or at a place in the program aimed at least often so far"""
    na = g["na"]
    if g.get("sites") and rng.random() < .4:
        low = min(TARGETED.get(s[0], 0) for s in g["sites"])
        k, first, last, count = rng.choice([s for s in g["sites"] if TARGETED.get(s[0], 0) == low])
        TARGETED[k] = low + 1
        n = first if count == 1 or rng.random() < .5 else last if count == 2 or rng.random() < .5 else rng.randint(first, last)
        return {"k": "alloc", "n": n, "c": rng.choice([1, 1, 1, 2, 1000000000])}
    x = rng.random()
    f = {"k": "alloc", "n": rnd_n(rng, max(1, na)), "c": 1}
    if x < .2: f["c"] = rng.choice([2, 3, 10])
    elif x < .35: f["c"] = 1000000000
    elif x < .42: f = {"k": "alloc", "n": 0, "min": rng.choice([1, 64, 256, 1024, 4096])}
    return f


def throw_fault(rng, g, spec):
    x = rng.random()
    ty = rng.randrange(8)
    if x < .12 and g["copies"]:
        return {"k": "copythrow", "n": rnd_n(rng, g["copies"]), "ty": ty}
    if x < .4 and spec.get("b") == "user":
        return {"k": "builderthrow", "n": rng.choice([1, 2]), "ty": ty}
    if not g["ncb"]:
        return None
    return {"k": "cbthrow", "n": rnd_n(rng, g["ncb"]), "ty": ty}


def pass_time(rng, p):
    """clocks that jump when they are looked at, callbacks that take long; nothing depends on it"""
    x = rng.random()
    if x < .4 and "clock" not in p.cfg: p.cfg["clock"] = rng.choice([1, 2, 2, 3])
    if x < .15:
        b = [s for s in p.steps if s["a"]["op"] == "build"]
        if b: rng.choice(b)["f"].append({"k": "slow", "n": min(200, 1 + int(rng.expovariate(.05))), "v": rng.choice([.001, 5, 86400])})


def threads_of(p):
    return {s["t"] for s in p.steps if s["ph"] == 1}


def has(p, *kinds):
    return any(f["k"] in kinds for s in p.steps for f in s["f"])


class Prop:
    notes = ()
    kinds = "mmmmhhppsstc"
    flavour = ["l", "c"]
    plans_per_block = 150
    runs_golden = False

    def ingredient(self, p, v):
        return True

    def nontrivial(self, p, r):
        return True

    def extra(self, p, r):
        return []

    def growth(self, p, r):
        """the memory in use after each round; when it rose: does it rise for ever?"""
        m = [x[1] for x in r.marks]
        if r.viol or len(m) < 3 or m[-1] <= m[0]:
            return []
        at = [i for i, s in enumerate(p.steps) if s["a"]["op"] == "mark"]
        rnd = p.steps[at[-2] + 1:at[-1] + 1]

        def more(n):
            q = p.copy()
            q.cfg["budget"] = 4000000000
            k = 0
            for _ in range(n):
                ren = {}
                for s in rnd:
                    ren[s["uid"]] = q.nuid
                    q.nuid += 1
                k += 1
                for s in rnd:
                    fs = [dict(f, steps=[ren.get(u, u) for u in f["steps"]]) if "steps" in f else dict(f) for f in s["f"]]
                    a = dict(s["a"], dr=s["a"]["dr"] + k) if "dr" in s["a"] else s["a"]
                    q.steps.append(dict(s, a=a, f=fs, uid=ren[s["uid"]], dep=ren.get(s["dep"], s["dep"])))
            rr = self.srv.run(q)
            mm = [x[1] for x in rr.marks]
            return (mm, int(rr.stat["steps"])) if not rr.viol and len(mm) == len(m) + n else (None, 0)

        mm, st = more(14)
        if not mm or mm[-1] <= mm[len(m)]:
            return []
        n = min(400, int(6e8 * len(mm) / st))
        if n < 128: # something that fills up to a limit could not be told apart
            return []
        mm, st = more(n)
        if not mm:
            return []
        t = mm[-n:]
        if t[n // 16] < t[n // 4] < t[-1]:
            return [("growth", "memory in use grows with every round: %s, %d rounds later %s bytes" % (m, n, t[-1]), at[-1])]
        return []


class C01(Prop):
    rule = ("plan: 0-3 problems built up front, 2-5 threads each running 1-4 queries on them (often the same few calls) or building, querying and "
            "destroying problems of their own, also taking over and destroying problems of other threads, sometimes with a shared sector builder, a failing thread or a destroyed coefficient environment; seeded "
            "preemption at memory accesses, locks, allocations, callbacks and call boundaries. Non-trivial: at least two threads and at least one "
            "preemption; distinct by hash of the interleaving (who is preempted where, by whom)")
    notes = ()

    def ingredient(self, p, v):
        return len(threads_of(p)) >= 2

    def nontrivial(self, p, r):
        return int(r.stat.get("vol", 0)) >= 1 and len(threads_of(p)) >= 2

    def distinct(self, p, r):
        return r.stat.get("ilhash")

    def gen(self, blk):
        rng = blk.rng
        m = Maker(blk, True)
        p = m.p
        nsh = rng.choice([1, 1, 1, 1, 2, 2, 2, 3, 3, 0]) # 0: everything is used for the first time by racing threads
        shared = [m.inst(rng.randrange(len(blk.specs))) for _ in range(nsh)]
        if nsh > 1 and rng.random() < .5: shared[1] = m.inst(blk.kin(m.spec_of[shared[0]]))
        sb = rng.randrange(len(blk.sbs)) if rng.random() < .3 else None
        for o in shared:
            m.build(o)
        cold = None if shared or rng.random() < .3 else rng.randrange(len(blk.specs))
        T = rng.choice([2, 2, 2, 3, 3, 4, 5])
        handed, late = [], []
        menus = {o: [blk.op(m.spec_of[o]) for _ in range(rng.choice([1, 2, 4]))] for o in shared}
        for o in shared:
            if rng.random() < .5: menus[o].append(blk.near(m.spec_of[o], menus[o][0]))
        premk = {}
        for o in shared: # eigenfunctions everyone shares
            if rng.random() < .5:
                c = [w for w in menus[o] if w[1] is not None]
                if c:
                    w = rng.choice(c)
                    sl = m.slot(o)
                    premk[o] = (p.add(w[1], o=o, slot=sl), sl, w)
        turns = [t for t in range(1, T + 1) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if rng.random() < .5: rng.shuffle(turns)
        given = [o for o in shared if rng.random() < .15] # used here, then handed to a thread
        for o in given:
            q = m.query(o)
            if rng.random() < .5: m.query(o)
            handed.append({"o": o, "last": None, "t": 0, "mk": [q] if q["dep"] is not None else [], "own": True})
            shared.remove(o)
        again = None
        relays = {rng.randrange(len(turns)) for _ in range(rng.choice([1, 1, 2]))} if rng.random() < .15 else ()
        if relays and rng.random() < .8: p.cfg["heap"] = 1
        for n, t in enumerate(turns):
            if m.cost > 9e6:
                break
            if n in relays: self.relay(m, T, t)
            x = rng.random()
            if handed and rng.random() < .4:
                h = rng.choice(handed)
                if self.take_over(m, h, t):
                    handed.remove(h)
                    again = m.spec_of[h["o"]]
            elif x < .72 and shared and again is None:
                o = rng.choice(shared)
                if o in premk and rng.random() < .5:
                    mk, sl, w = premk[o]
                    p.add(w[0], o=o, ph=1, t=t, dep=mk["uid"], slot=sl)
                    m.cost += w[2]["st"]
                elif rng.random() < .75:
                    m.query(o, 1, t, which=rng.choice(menus[o]))
                else:
                    m.query(o, 1, t)
            else:
                k = rng.randrange(len(blk.specs)) if cold is None else cold
                if again is not None and rng.random() < .7: k = blk.kin(again) # perhaps where the other one was
                again = None
                spec = blk.specs[k]
                if sb is not None and rng.random() < .7:
                    spec = blk.with_sb(spec, sb) or spec
                    if blk.bgold(spec, p.sbs) is None:
                        spec = blk.specs[k]
                o = m.inst(k, spec)
                f = []
                if rng.random() < .15:
                    g = blk.bgold(spec, p.sbs)
                    f = [alloc_fault(rng, g)] if rng.random() < .5 else [throw_fault(rng, g, spec)]
                    f = [y for y in f if y]
                m.build(o, 1, t, f)
                if f: m.build(o, 1, t)
                q = m.query(o, 1, t)
                if rng.random() < .35: # for other threads
                    handed.append({"o": o, "last": p.steps[-1]["uid"], "t": t, "mk": [q] if q["dep"] is not None else [], "own": rng.random() < .6})
                elif rng.random() < .2:
                    late.append(o)
                elif rng.random() < .6:
                    p.add({"op": "drop"}, o=o, ph=1, t=t)
        for o in [h["o"] for h in handed] + late + (shared if rng.random() < .2 else []):
            if rng.random() < .7: m.query(o, 3) # the threads are gone
        return p

    @staticmethod
    def relay(m, T, t):
        """thread t uses a problem that another thread then replaces by one that differs little, perhaps in the same place, and asks the same"""
        p, rng, blk = m.p, m.rng, m.b
        k = rng.randrange(len(blk.specs))
        k2 = blk.kin(k)
        ws = [blk.op(k) for _ in range(rng.choice([1, 2, 3]))]
        if k2 == k or any(w[2] is None for w in ws): return
        vs = [blk.as_op(k2, w[0], w[1]) for w in ws]
        if None in vs or sum(w[2]["st"] for w in ws + vs) > 3e6: return
        o, o2 = m.inst(k), m.inst(k2)
        us = [u for u in range(1, T + 1) if u != t]
        u = rng.choice(us)
        maker, first = rng.choice([(t, None), (u, None), (0, None), (u, u), (rng.choice(us), None)])
        last = None
        def turn(f):
            nonlocal last
            n = len(p.steps)
            f()
            for s in p.steps[n:]:
                if s["ph"] == 1 and last is not None: s["aft"] = [last]
            if len(p.steps) > n and p.steps[-1]["ph"] == 1: last = p.steps[-1]["uid"]
        turn(lambda: m.build(o, 0 if maker == 0 else 1, maker))
        if first is not None: turn(lambda: m.query(o, 1, first, which=rng.choice(ws)))
        def ask(x, y):
            for w in y: m.query(x, 1, t, which=w)
        turn(lambda: ask(o, ws))
        def replace():
            p.add({"op": "dropslots"}, o=o, ph=1, t=u)
            p.add({"op": "drop"}, o=o, ph=1, t=u)
            m.build(o2, 1, u)
        turn(replace)
        turn(lambda: ask(o2, vs))
        if rng.random() < .3: turn(lambda: p.add({"op": "drop"}, o=o2, ph=1, t=rng.choice(us)))

    @staticmethod
    def take_over(m, h, t):
        """thread t uses a problem another thread (or the main one, before) used until now, as its new owner or with others; -> dropped"""
        p, rng, n = m.p, m.rng, len(m.p.steps)
        for q in h["mk"]:
            p.add(q["a"], o=h["o"], ph=1, t=t, dep=q["dep"], slot=q["slot"])
        for _ in range(rng.choice([0, 1, 1, 2])): m.query(h["o"], 1, t)
        drop = h["own"] and rng.random() < .6
        if drop:
            for y in rng.choice([("drop",), ("drop", "dropslots"), ("dropslots", "drop")]): p.add({"op": y}, o=h["o"], ph=1, t=t)
        if h["last"] is not None and h["t"] != t:
            for s in p.steps[n:]: s["aft"] = [h["last"]]
        if h["own"] and len(p.steps) > n: h["last"], h["t"] = p.steps[-1]["uid"], t
        return drop


class C02(Prop):
    rule = ("history: 6-26 operations of one thread on 2-4 problems (queries, eigenfunctions, rebuilds, destructions, rejected, throwing and "
            "allocation-failing calls) under a seeded heap reuse policy and seeded contents of fresh and freed memory; every operation compared bit for bit with its "
            "isolated run, every batch evaluation with its points. Non-trivial: at least four compared operations; distinct by hash of the execution")
    notes = ("batch",)
    plans_per_block = 120

    def ingredient(self, p, v):
        if v[0] == "batch": return True
        if v[0] == "mismatch":
            return True
        return len(p.steps) > 2 and v[0] in ("memory", "crash", "terminate", "hang", "memory-growth")

    def nontrivial(self, p, r):
        return len(r.R) >= 4

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def gen(self, blk):
        rng = blk.rng
        m = Maker(blk)
        m.fills()
        p = m.p
        if rng.random() < .06:
            return long_history(m)
        objs = [m.inst(rng.randrange(len(blk.specs))) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        if rng.random() < .3: objs.append(m.inst(m.spec_of[objs[0]]))
        if rng.random() < .4: objs.append(m.inst(blk.kin(m.spec_of[objs[0]])))
        built = set()
        for _ in range(rng.randrange(6, 27)):
            if m.cost > 1.2e7: break
            o = rng.choice(objs)
            x = rng.random()
            if o not in built:
                if rng.random() < .15:
                    g = blk.bgold(p.objs[o], p.sbs)
                    f = throw_fault(rng, g, p.objs[o]) if rng.random() < .5 else alloc_fault(rng, g)
                    if f: m.build(o, f=[f])
                m.build(o)
                built.add(o)
            elif x < .08:
                p.add({"op": "dropslots"}, o=o)
                p.add({"op": "drop"}, o=o)
                built.discard(o)
            elif x < .12:
                p.add({"op": "dropslots"}, o=o)
                m.build(o)
            elif x < .2: # destroyed, and another one like it in its place is asked the same
                w = blk.op(m.spec_of[o])
                k = blk.kin(m.spec_of[o])
                v = blk.as_op(k, w[0], w[1]) if w[2] else None
                if v is None: continue
                m.query(o, which=w)
                p.add({"op": "dropslots"}, o=o)
                p.add({"op": "drop"}, o=o)
                built.discard(o)
                n = m.inst(k)
                m.build(n)
                if rng.random() < .2: m.query(n)
                m.query(n, which=v)
                objs.append(n)
                built.add(n)
            elif x < .32: # questions that differ in one argument, and the first again
                w = blk.op(m.spec_of[o])
                m.query(o, which=w)
                v = w
                for _ in range(rng.choice([1, 1, 2])):
                    v = blk.near(m.spec_of[o], v)
                    m.query(o, which=v)
                if rng.random() < .3: m.query(rng.choice(sorted(built)))
                if rng.random() < .7: m.query(o, which=w)
            elif x < .38: # two problems are asked the same in turn
                w = blk.op(m.spec_of[o])
                q = [n for n in sorted(built) if n != o and blk.base[m.spec_of[n]] == blk.base[m.spec_of[o]]]
                if not q or w[2] is None: continue
                n = rng.choice(q)
                v = blk.as_op(m.spec_of[n], w[0], w[1])
                if v is None: continue
                for y, z in ((o, w), (n, v), (o, w)): m.query(y, which=z)
            elif x < .44:
                w = blk.op(m.spec_of[o])
                f = [alloc_fault(rng, w[2])] if w[2] and w[2]["na"] else []
                m.query(o, which=w, f=f)
                if rng.random() < .5: m.query(o, which=w)
            elif x < .52: # the same eigenfunction evaluated again and again
                w = blk.op(m.spec_of[o])
                s = m.query(o, which=w)
                if s["dep"] is not None:
                    for _ in range(2):
                        a, mk, g = w
                        p.add(a, o=o, dep=s["dep"], slot=s["slot"])
            else:
                m.query(o)
        # slots that were reused or dropped: their later evaluations are invalid
        return valid_slots(p)


def long_history(m):
    """hundreds of calls on one or two objects"""
    rng, p, blk = m.rng, m.p, m.b
    objs = [m.inst(rng.randrange(len(blk.specs))) for _ in range(rng.choice([1, 1, 2]))]
    for o in objs: m.build(o)
    menu = []
    for o in objs:
        for _ in range(6):
            w = blk.op(m.spec_of[o], .5)
            if w[2] and w[2]["st"] < 1e5: menu.append((o, w))
    menu = rng.sample(menu, min(len(menu), rng.choice([1, 2, 3, 5])))
    if not menu:
        return p
    held = [x for x in menu if x[1][1] is not None]
    if held and rng.random() < .4: # very many eigenfunctions are kept and evaluated later
        have = []
        for _ in range(SLOTS):
            o, w = rng.choice(held)
            sl = m.slot(o)
            if sl is None or m.cost > 1e7: break
            have.append((o, w, sl, p.add(w[1], o=o, slot=sl)["uid"]))
            m.cost += w[2]["st"]
        rng.shuffle(have)
        for o, w, sl, u in have: p.add(w[0], o=o, dep=u, slot=sl)
        return valid_slots(p)
    mk = {}
    for _ in range(rng.choice([40, 80, 150, 300, 600])):
        if m.cost > 1.5e7: break
        n = rng.randrange(len(menu))
        o, w = menu[n]
        if w[1] is None or n not in mk and m.slots.get(o, 0) >= SLOTS:
            if w[1] is None: m.query(o, which=w)
        elif n in mk and rng.random() < .9:
            p.add(w[0], o=o, dep=mk[n]["dep"], slot=mk[n]["slot"])
            m.cost += w[2]["st"]
        elif m.slots.get(o, 0) < SLOTS:
            mk[n] = m.query(o, which=w)
        if rng.random() < .02: m.build(rng.choice([m.inst(rng.randrange(len(blk.specs)))]))
    return valid_slots(p)


def valid_slots(p):
    """removes evaluations of eigenfunctions that no longer exist or whose problem was rebuilt (they are not allowed)"""
    cur, drop, owner = {}, [], {}
    for s in p.steps:
        op = s["a"]["op"]
        if op in ("drop", "build", "dropslots"):
            for k in [k for k in cur if k[0] == s["o"]]: del cur[k]
        if op in ("mkef", "mkpair"):
            cur[(s["o"], s["slot"])] = s["uid"]
        if s["dep"] is not None and cur.get((s["o"], s["slot"])) != s["dep"]:
            drop.append(s["uid"])
    return p.without(drop) if drop else p


class C03(Prop):
    rule = ("plan: problems of all kinds built around one or more constructions whose coefficient function, copy of it or sector builder throws "
            "one of eight exception types at a seeded point (first, last, uniform), each repeated without the fault and queried; a quarter with other "
            "threads at work. Non-trivial: a throw fired; distinct by execution hash")
    notes = ("leak",)

    def ingredient(self, p, v):
        return has(p, "cbthrow", "copythrow", "builderthrow")

    def nontrivial(self, p, r):
        return any(r.fired.get(k) for k in ("cbthrow", "copythrow", "builderthrow"))

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def extra(self, p, r):
        return self.growth(p, r)

    def gen(self, blk):
        rng = blk.rng
        if rng.random() < .05:
            return failing_rounds(blk, lambda g, sp: throw_fault(rng, g, sp), lambda g: {"k": "cbthrow", "n": 1, "ty": rng.randrange(8)} if g["ncb"] else None)
        mt = rng.random() < .25
        m = Maker(blk, mt)
        m.fills()
        p = m.p
        T = rng.choice([2, 3]) if mt else 1
        other = None
        if rng.random() < .5:
            other = m.inst(rng.randrange(len(blk.specs)))
            m.build(other)
        for t in range(1, T + 1):
            ph, tt = (1, t) if mt else (0, 0)
            for _ in range(rng.choice([1, 1, 2])):
                if m.cost > 9e6: break
                k = rng.randrange(len(blk.specs))
                o = m.inst(k)
                g = blk.bgold(p.objs[o], p.sbs)
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    f = throw_fault(rng, g, p.objs[o])
                    if f: m.build(o, ph, tt, [f])
                if rng.random() < .85:
                    m.build(o, ph, tt)
                    for _ in range(rng.choice([1, 2])):
                        w = blk.op(k)
                        f = []
                        if p.objs[o]["kind"] == "t" and w[2] and w[2]["ncb"] and rng.random() < .5:
                            m.query(o, ph, tt, which=w, f=[{"k": "cbthrow", "n": 1, "ty": rng.randrange(8)}])
                        m.query(o, ph, tt, which=w)
                if other is not None and rng.random() < .5:
                    m.query(other, ph, tt)
        return valid_slots(p)


class C04(Prop):
    rule = ("plan: problems of all kinds; in one or more operations (construction, query, eigenfunction, copy) the n-th allocation, a run of "
            "them, all from the n-th on or all above a size fail; each repeated without the fault; a quarter with other threads at work. Non-trivial: an "
            "allocation failed; distinct by execution hash")
    notes = ("leak",)

    def ingredient(self, p, v):
        return has(p, "alloc")

    def nontrivial(self, p, r):
        return bool(r.fired.get("alloc"))

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def extra(self, p, r):
        return self.growth(p, r)

    def gen(self, blk):
        rng = blk.rng
        if rng.random() < .05:
            return failing_rounds(blk, lambda g, sp: alloc_fault(rng, g), lambda g: alloc_fault(rng, g) if g["na"] else None)
        mt = rng.random() < .25
        m = Maker(blk, mt)
        m.fills()
        p = m.p
        T = rng.choice([2, 3]) if mt else 1
        for t in range(1, T + 1):
            ph, tt = (1, t) if mt else (0, 0)
            for _ in range(rng.choice([1, 1, 2])):
                if m.cost > 9e6: break
                k = rng.randrange(len(blk.specs))
                o = m.inst(k)
                g = blk.bgold(p.objs[o], p.sbs)
                if rng.random() < .6:
                    for _ in range(rng.choice([1, 1, 2])):
                        m.build(o, ph, tt, [alloc_fault(rng, g)])
                m.build(o, ph, tt)
                for _ in range(rng.choice([1, 2, 3, 4])):
                    w = blk.op(k)
                    if w[2] and w[2]["na"] and rng.random() < .8:
                        mf = []
                        if w[1] is not None and rng.random() < .5:
                            gm = blk.ggold(blk.specs[k], w[1])
                            if gm and gm["na"]: mf = [alloc_fault(rng, gm)]
                        m.query(o, ph, tt, which=w, f=[] if mf else [alloc_fault(rng, w[2])], fmk=mf)
                        if mf: continue
                    if rng.random() < .6:
                        m.query(o, ph, tt, which=w)
        return valid_slots(p)


def failing_rounds(blk, build_fault, query_fault):
    """the same failing operations again and again: they must not use up memory either"""
    rng = blk.rng
    m = Maker(blk)
    m.fills()
    m.p.cfg["heap"] = rng.choice([0, 1, 2])
    prog = []
    for _ in range(rng.choice([1, 1, 2])):
        k = min((rng.randrange(len(blk.specs)) for _ in range(3)), key=lambda k: (blk.bgold(blk.specs[k], []) or {"st": 1 << 60})["st"])
        o = m.inst(k)
        g = blk.bgold(m.p.objs[o], [])
        if g is None: continue
        prog.append(("build", o, [build_fault(g, m.p.objs[o])]))
        if rng.random() < .6:
            prog.append(("build", o, []))
            for _ in range(rng.choice([0, 1, 2])):
                w = blk.op(k)
                prog.append(("q", o, w, query_fault(w[2]) if w[2] else None))
            prog.append(("drop", o, []))
    for _ in range(rng.choice([3, 4, 5])):
        for x in prog:
            if x[0] == "build": m.build(x[1], f=[dict(f) for f in x[2] if f])
            elif x[0] == "q":
                s = m.query(x[1], which=x[2], f=[dict(x[3])] if x[3] else [])
                m.slots.clear() # used again in the next round
            else:
                m.p.add({"op": "dropslots"}, o=x[1])
                m.p.add({"op": "drop"}, o=x[1])
        m.p.add({"op": "mark"}, o=-1)
    return m.p


def op_on(blk, m, o, ph, t, fault=0.0):
    """a query, perhaps with a fault that makes it fail"""
    w = m.op(o)
    f = [alloc_fault(blk.rng, w[2])] if w[2] and w[2]["na"] and blk.rng.random() < fault else []
    return m.query(o, ph, t, which=w, f=f)


class C05(Prop):
    rule = ("plan: histories and concurrent programs as for C02 and C01 (with failing constructions); the data the coefficient functions refer to is destroyed or "
            "overwritten after most constructions; every call of a coefficient function is checked for the thread, the phase and the point. "
            "Non-trivial: at least one coefficient function was called; distinct by execution hash")
    notes = ("late", "outside", "wrongthread")
    plans_per_block = 130

    def __init__(self):
        self.c1, self.c2 = C01(), C02()

    def ingredient(self, p, v):
        return v[0] in self.notes or any("envdie" in o for o in p.objs) or any(s["a"]["op"] == "killenv" for s in p.steps)

    def nontrivial(self, p, r):
        return any(x["ncb"] for x in r.R.values())

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def gen(self, blk):
        rng = blk.rng
        p = (self.c1 if rng.random() < .3 else self.c2).gen(blk)
        for i, o in enumerate(p.objs):
            if o["kind"] == "t":
                continue
            o = dict(o)
            if rng.random() < .8: o["envdie"] = rng.choice([1, 2])
            else: o.pop("envdie", None)
            p.objs[i] = o
        steps = []
        for s in p.steps: # the data may also go away later, while the problem is in use
            steps.append(s)
            if s["a"]["op"] not in ("build", "sb", "dropsb", "drop") and s["o"] >= 0 and p.objs[s["o"]]["kind"] != "t" and s["ph"] == 0 and rng.random() < .1:
                steps.append({"uid": p.nuid, "ph": s["ph"], "t": s["t"], "o": s["o"], "a": {"op": "killenv"}, "dep": None, "slot": None, "f": []})
                p.nuid += 1
        p.steps = steps
        return p


GARBAGE = ["nan", "nan", "inf", "-inf", "1e308", "-1e308", "1e-320", "0", "-1", "1e150", "-1e150", "1e30", "-1e30", "1e16", "-1e16"]


class SmallBlock(Block):
    """as Block, but the automatic division, which stops at a width between 1e-4 and 1e-3 whatever the potential, works on short intervals"""

    def __init__(self, rng, gold, kinds):
        super().__init__(rng, gold, kinds)

    def change(self, s):
        if s["kind"] in "mhpcs" and s.get("b", "def") in ("def", "auto"):
            l = .03 if s["kind"] == "c" else .1 if s["sc"] == "d" else .01 # (searching bounds takes 1e3 and 1.6e4 doublings)
            s["hi"] = (0 if s["kind"] == "h" else s["lo"]) + l
            s.pop("jumps", None)
        return s


class C06(Prop):
    rule = ("plan: 1-3 problems of all kinds in whose construction (transformations: also queries) coefficient functions return garbage (NaN, infinities, "
            "huge, denormal, zero, negative) once or from a point on, followed by queries on them, other problems and rebuilding without garbage; a "
            "quarter with threads. Budgets: 4e8 instrumented events, 192 MB. Non-trivial: garbage was returned; distinct by execution hash")
    notes = ("leak",)
    plans_per_block = 100

    def ingredient(self, p, v):
        return has(p, "cbval")

    def nontrivial(self, p, r):
        return bool(r.fired.get("cbval"))

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def block(self, rng, gold):
        return SmallBlock(rng, gold, self.kinds)

    def garbage(self, rng, g, spec):
        f = {"k": "cbval", "n": rnd_n(rng, max(1, g["ncb"])), "v": rng.choice(GARBAGE)}
        if rng.random() < .45: f["persist"] = 1
        if rng.random() < .1: f["n"], f["persist"] = 1, 1
        if spec["kind"] in "ts": # p and w within what keeps the transformed interval of moderate length (or not finite)
            f["which"] = rng.choice([1, 2, 2, 3])
            if f["which"] == 1: f["v"] = rng.choice(["nan", "inf", "-inf", "0", "-1", "1e308", "1e150", "1e16", ".3", "7"])
            if f["which"] == 3: f["v"] = rng.choice(["nan", "inf", "-inf", "0", "-1", "1e-320", "1e-16", "-1e308", ".3", "7"])
        return f

    def gen(self, blk):
        rng = blk.rng
        mt = rng.random() < .2
        m = Maker(blk, mt)
        m.fills()
        p = m.p
        p.cfg["budget"] = 2000000000
        T = 2 if mt else 1
        other = None
        if rng.random() < .5:
            other = m.inst(rng.randrange(len(blk.specs)))
            m.build(other)
        for t in range(1, T + 1):
            ph, tt = (1, t) if mt else (0, 0)
            for _ in range(rng.choice([1, 1, 2])):
                k = rng.randrange(len(blk.specs))
                o = m.inst(k)
                g = blk.bgold(p.objs[o], p.sbs)
                fs = [self.garbage(rng, g, p.objs[o])]
                while rng.random() < .3: fs.append(self.garbage(rng, g, p.objs[o]))
                m.build(o, ph, tt, fs)
                for _ in range(rng.choice([1, 2, 3, 5])):
                    w = blk.op(k)
                    f = []
                    if p.objs[o]["kind"] == "t" and w[2] and w[2]["ncb"] and rng.random() < .7: f = [self.garbage(rng, w[2], p.objs[o])]
                    m.query(o, ph, tt, which=w, f=f)
                if other is not None and rng.random() < .7:
                    m.query(other, ph, tt)
                if rng.random() < .3:
                    m.build(o, ph, tt)
                    m.query(o, ph, tt)
        return valid_slots(p)


class C07(Prop):
    rule = ("plan: constructions whose coefficient functions or division strategy, in seeded calls, build, query and destroy other problems (nested up to three "
            "deep), query finished ones, suffer failures inside and throw afterwards; a quarter with threads. Non-trivial: a nested operation ran; distinct by "
            "execution hash")
    notes = ("leak", "wrongthread")
    plans_per_block = 120

    def ingredient(self, p, v):
        return has(p, "nest")

    def nontrivial(self, p, r):
        return bool(r.fired.get("nest"))

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def nested(self, m, done, t, depth, budget):
        """steps run inside a callback; -> uids"""
        blk, rng, p = m.b, m.rng, m.p
        ids = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            if done and rng.random() < .45:
                o = rng.choice(done)
                s = op_on(blk, m, o, 2, t, .15)
                if s["dep"] is not None: ids.append(s["dep"])
                ids.append(s["uid"])
                continue
            k = rng.randrange(len(blk.specs))
            g = blk.ggold(blk.specs[k], {"op": "build"})
            if not g or g["st"] > budget: continue
            o = m.inst(k)
            f = self.nestfault(m, o, done, t, depth - 1, budget / 3) if depth > 0 and rng.random() < .4 else []
            if not f and rng.random() < .15:
                x = throw_fault(rng, g, p.objs[o]) if rng.random() < .5 else alloc_fault(rng, g)
                f = [x] if x else []
                if f:
                    ids.append(m.build(o, 2, t, f)["uid"])
                    f = []
            ids.append(m.build(o, 2, t, f)["uid"])
            for _ in range(rng.choice([0, 1, 2])):
                s = op_on(blk, m, o, 2, t, .1)
                if s["dep"] is not None: ids.append(s["dep"])
                ids.append(s["uid"])
            if rng.random() < .7:
                ids.append(p.add({"op": "dropslots"}, o=o, ph=2, t=t)["uid"])
                ids.append(p.add({"op": "drop"}, o=o, ph=2, t=t)["uid"])
        return ids

    def nestfault(self, m, o, done, t, depth, budget=2e6):
        rng, blk, p = m.rng, m.b, m.p
        g = blk.bgold(p.objs[o], p.sbs)
        fs = []
        for _ in range(rng.choice([1, 1, 2])):
            if p.objs[o].get("b") == "user" and rng.random() < .5:
                f = {"k": "nest", "which": 9, "n": rng.choice([1, 2])}
            elif g["ncb"]:
                f = {"k": "nest", "n": rnd_n(rng, g["ncb"])}
            else:
                continue
            if any(f["n"] == x["n"] for x in fs): continue # one nested program per call
            ids = self.nested(m, done, t, depth, budget)
            if not ids: continue
            f["steps"] = ids
            fs.append(f)
            if rng.random() < .2 and "which" not in f:
                fs.append({"k": "cbthrow", "n": f["n"] + rng.choice([0, 0, 1, 3]), "ty": rng.randrange(8)})
                break
        return fs

    def gen(self, blk):
        rng = blk.rng
        mt = rng.random() < .25
        m = Maker(blk, mt)
        m.fills()
        p = m.p
        done = []
        for _ in range(rng.choice([0, 1, 2])):
            o = m.inst(rng.randrange(len(blk.specs)))
            m.build(o)
            done.append(o)
        T = rng.choice([2, 3]) if mt else 1
        for t in range(1, T + 1):
            ph, tt = (1, t) if mt else (0, 0)
            for _ in range(rng.choice([1, 1, 2])):
                if m.cost > 9e6: break
                k = rng.randrange(len(blk.specs))
                o = m.inst(k)
                fs = self.nestfault(m, o, done, tt, 2)
                m.build(o, ph, tt, fs)
                if any(f["k"] == "cbthrow" for f in fs): m.build(o, ph, tt)
                for _ in range(rng.choice([1, 2])):
                    m.query(o, ph, tt)
                if done and rng.random() < .5: m.query(rng.choice(done), ph, tt)
                # a transformed problem calls q on demand: also there the library may be used
                if p.objs[o]["kind"] == "t":
                    w = blk.op(k)
                    if w[2] and w[2]["ncb"]:
                        ids = self.nested(m, done, tt, 1, 1e6)
                        if ids: m.query(o, ph, tt, which=w, f=[{"k": "nest", "n": rnd_n(rng, w[2]["ncb"]), "steps": ids}])
        q = p.without([])
        return q


class C08(Prop):
    rule = ("plan: histories as for C02 with failing calls in which the standard streams fail or are reformatted, the locale or the rounding mode changes in between; around every "
            "operation, and in the callbacks in between, the process state is compared (streams, locale, floating-point control, handlers, signals and their mask, "
            "environment, directory, limits, open files), at the end standard output and the random sequences. Non-trivial: at least four operations compared; distinct by execution hash")
    notes = ("state", "stdout", "fpenv")
    plans_per_block = 110

    def __init__(self):
        self.others = [C01(), C04(), C04(), C03(), C07(), C02(), C02(), C02(), C02(), C02()]

    def ingredient(self, p, v):
        return v[0] in self.notes or any(s["a"]["op"] == "env" for s in p.steps)

    def nontrivial(self, p, r):
        return len(r.R) >= 4

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def gen(self, blk):
        rng = blk.rng
        rounding = rng.random() < .15
        p = rng.choice(self.others[1:4] + self.others[5:] if rounding else self.others).gen(blk)
        if not any(s["ph"] == 1 for s in p.steps):
            p.cfg["state"] = 1
        n = rng.choice([0, 1, 1, 2, 3])
        kinds = ["coutfail", "cerrfail", "coutbad", "cerrbad", "hex", "comma", "comma", "clocale"]
        if rounding:
            n, kinds = 1, ["up", "down", "zero"]
            p.cfg["budget"] = 20000000
        pos = sorted(rng.randrange(len([s for s in p.steps if s["ph"] == 0]) + 1) for _ in range(n))
        out, k = [], 0
        for i, s in enumerate(p.steps):
            while k < len(pos) and pos[k] == i:
                out.append({"uid": p.nuid, "ph": 0, "t": 0, "o": -1, "dep": None, "slot": None, "f": [],
                            "a": {"op": "env", "k": rng.choice(kinds)}})
                p.nuid += 1
                k += 1
            out.append(s)
        p.steps = out
        return p


class C10(Prop):
    rule = ("plan: lifetimes: problems, sectors, copies and eigenfunctions are made, used, and destroyed in seeded orders; arguments die after "
            "every call (always); shared builders die before the problems made with them; rounds of construct-query-destroy are repeated 3-5 times and the "
            "live memory after each compared. Non-trivial: at least one object was used after one of its arguments or relatives died; distinct by execution hash")
    notes = ("leak",)
    plans_per_block = 110
    runs_golden = True

    def nontrivial(self, p, r):
        return len(r.R) >= 4

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def gen(self, blk):
        rng = blk.rng
        m = Maker(blk)
        m.fills()
        m.p.cfg["heap"] = rng.choice([0, 0, 0, 1, 2])
        p = m.p
        rounds = rng.choice([1, 1, 3, 3, 4, 5])
        nobj = rng.choice([1, 2, 2, 3]) if rounds > 1 else rng.choice([1, 2, 3, 4])
        sb = rng.randrange(len(blk.sbs)) if rng.random() < .4 else None
        objs = []
        for _ in range(nobj):
            k = rng.randrange(len(blk.specs))
            spec = blk.specs[k]
            if sb is not None and rng.random() < .7:
                spec = blk.with_sb(spec, sb) or spec
                if blk.bgold(spec, p.sbs) is None: spec = blk.specs[k]
            objs.append(m.inst(k, spec))
        # one round
        prog = []
        if sb is not None: prog.append(("sb",))
        for o in objs: prog.append(("build", o))
        if sb is not None and rng.random() < .8: prog.append(("dropsb",))
        live = list(objs)
        for _ in range(rng.randrange(2, 7)):
            if not live: break
            o = rng.choice(live)
            x = rng.random()
            if x < .15 and len(live) > 1:
                prog.append(("drop", o, rng.random() < .5))
                live.remove(o)
            else:
                prog.append(("q", o, m.op(o)))
        rng.shuffle(live)
        for o in live:
            w = None
            if rng.random() < .3:
                k = m.spec_of[o]
                a = gen_orphan(rng, blk.specs[k], blk.pools[k])
                w = a and blk.on(p.objs[o], (a, None, True))
            prog.append(("orph", o, w) if w else ("drop", o, rng.random() < .5))
        drift = rounds > 1 and rng.random() < .3 # no round is exactly like another
        for k in range(rounds):
            if m.cost > 1.2e7: break
            first = len(p.steps)
            for x in prog:
                if x[0] == "sb": p.add({"op": "sb"}, o=sb)
                elif x[0] == "dropsb": p.add({"op": "dropsb"}, o=sb)
                elif x[0] == "build": m.build(x[1])
                elif x[0] == "q": m.query(x[1], which=x[2])
                elif x[0] == "orph":
                    m.query(x[1], which=x[2])
                    p.add({"op": "dropslots"}, o=x[1])
                else:
                    for y in (("drop", "dropslots") if x[2] else ("dropslots", "drop")): p.add({"op": y}, o=x[1])
            if sb is not None and ("dropsb",) not in prog: p.add({"op": "dropsb"}, o=sb)
            if drift:
                for s in p.steps[first:]:
                    if s["a"]["op"] not in ("sb", "dropsb", "drop", "dropslots"): s["a"] = dict(s["a"], dr=k + 1)
            if rounds > 1: p.add({"op": "mark"}, o=-1)
        return p

    def extra(self, p, r):
        return self.growth(p, r)


class C12(Prop):
    rule = ("plan: 2-5 threads; one to all but one of them stall inside a callback (coefficient function or division strategy) of a construction until nothing else can "
            "go on, while the others build, query and destroy their own and shared problems, with failures. Non-trivial: a callback stalled while "
            "another thread had work; distinct by hash of the interleaving and execution")
    plans_per_block = 130

    def ingredient(self, p, v):
        return has(p, "stall")

    def nontrivial(self, p, r):
        return bool(r.fired.get("stall")) and int(r.stat.get("nsw", 0)) > 0

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def gen(self, blk):
        rng = blk.rng
        m = Maker(blk, True)
        p = m.p
        if rng.random() < .5: p.cfg["gap"] = 100000
        shared = [m.inst(rng.randrange(len(blk.specs))) for _ in range(rng.choice([0, 1, 1, 2]))]
        sb = rng.randrange(len(blk.sbs)) if rng.random() < .25 else None
        for o in shared: m.build(o)
        T = rng.choice([2, 2, 3, 3, 4, 5, 7])
        nst = rng.choice([1, 1, rng.randint(1, T - 1)])
        for t in range(1, T + 1):
            for j in range(rng.choice([1, 1, 2])):
                if m.cost > 9e6: break
                if t > nst and shared and rng.random() < .4:
                    m.query(rng.choice(shared), 1, t)
                    continue
                k = rng.randrange(len(blk.specs))
                spec = blk.specs[k]
                if sb is not None and rng.random() < .7:
                    spec = blk.with_sb(spec, sb) or spec
                    if blk.bgold(spec, p.sbs) is None: spec = blk.specs[k]
                g = blk.bgold(spec, p.sbs)
                o = m.inst(k, spec)
                f = []
                if t <= nst and j == 0:
                    for _ in range(rng.choice([1, 1, 2])):
                        if spec.get("b") == "user" and rng.random() < .4: f.append({"k": "stall", "which": 9, "n": rng.choice([1, 2])})
                        elif g["ncb"]: f.append({"k": "stall", "n": rnd_n(rng, g["ncb"])})
                    uid = None # the stalled construction was started by a callback of this one
                    for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 2]) if g["ncb"] else 0):
                        k2 = rng.randrange(len(blk.specs))
                        g2 = blk.bgold(blk.specs[k2], p.sbs)
                        if not g2 or not g2["ncb"] or g2["st"] > 2e6: break
                        n = rnd_n(rng, g2["ncb"])
                        uid = m.build(m.inst(k2), 2, t, [{"k": "stall", "n": n} if uid is None else {"k": "nest", "n": n, "steps": [uid]}])["uid"]
                    if uid is not None:
                        f = [{"k": "nest", "which": 9, "n": 1, "steps": [uid]} if spec.get("b") == "user" and rng.random() < .4 else
                             {"k": "nest", "n": rnd_n(rng, g["ncb"]), "steps": [uid]}]
                    if rng.random() < .15 and g["ncb"]: f.append({"k": "cbthrow", "n": rnd_n(rng, g["ncb"]), "ty": rng.randrange(8)})
                elif rng.random() < .15:
                    x = throw_fault(rng, g, spec) if rng.random() < .5 else alloc_fault(rng, g)
                    f = [x] if x else []
                m.build(o, 1, t, f)
                if not any(x["k"] in FAULTY for x in f):
                    for _ in range(rng.choice([0, 1, 2])): m.query(o, 1, t)
                if rng.random() < .5:
                    p.add({"op": "dropslots"}, o=o, ph=1, t=t)
                    p.add({"op": "drop"}, o=o, ph=1, t=t)
                    if rng.random() < .5: m.build(o, 1, t)
        return valid_slots(p)


class C09(Prop):
    rule = ("plan: the histories, threads, nesting and faults of C01, C02, C03, C04 and C07 run on the profiling build while the wall clock jumps by up to an hour "
            "in either direction; results are compared with those of the normal build in isolation, the report written at the end with a count of every "
            "timed scope entered that the simulator keeps itself, per path. Non-trivial: at least ten timed scopes were entered; distinct by execution hash")
    notes = ("profcount", "proftime", "leak", "stdout", "fpenv")
    flavour = ["l", "c", "prof"]
    plain = ["l", "c"]
    plans_per_block = 110
    plain_exe = None

    def __init__(self):
        self.c = [C01(), C02(), C03(), C04(), C07()]
        self.psrv = None

    @classmethod
    def prepare(cls, tier):
        cls.plain_exe = simbuild.build(cls.plain + (["q"] if tier == "thorough" else []))[0]

    def gold_server(self):
        if self.psrv is None: self.psrv = Server(self.plain_exe)
        return self.psrv

    def ingredient(self, p, v):
        if v[0] in ("profcount", "proftime"): return True
        # does the normal build have it too? then it is not about profiling
        q = p.copy()
        q.sw = None
        for k in range(12 if threads_of(p) else 1):
            q.cfg["seed"] = int(p.cfg.get("seed", 1)) + 101 * k
            r = self.gold_server().run(q)
            if any(x[0] == v[0] for x in self.judge(q, r)): return False
        return True

    def nontrivial(self, p, r):
        return r.prof.get("sum", 0) >= 10

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def gen(self, blk):
        rng = blk.rng
        p = rng.choice([self.c[0], self.c[0], self.c[0], self.c[1], self.c[2], self.c[3], self.c[4]]).gen(blk)
        if p is None: return None
        p.cfg["clock"] = int(rng.random() < .6)
        b = [s for s in p.steps if s["a"]["op"] == "build"]
        if b and rng.random() < .5:
            for _ in range(rng.choice([1, 2])):
                s = rng.choice(b)
                g = blk.bgold(p.objs[s["o"]], p.sbs)
                if g and g["ncb"]:
                    s["f"].append({"k": "clock", "n": rnd_n(rng, g["ncb"]), "v": rng.choice([-3600, -1, -.001, 1e-9, 5, 86400, -1e6])})
        return p


class PyBlock(Block):
    def new_spec(self, kinds, wide):
        return gen_py_spec(self.rng)

    def other_spec(self, s):
        return vary_py_spec(self.rng, s)

    def new_op(self, k):
        return gen_py_op(self.rng, self.specs[k], self.pools[k])

    def other_op(self, k, a, mk):
        return vary_py_op(self.rng, self.specs[k], self.pools[k], a, mk)


class C11(Prop):
    rule = ("script: 4-22 calls of the Python module by 1-3 simulated Python threads that share the interpreter lock (and pass it on inside callbacks): objects of "
            "all seven classes are made (also from methods and eigenfunctions of other objects), asked, kept in part (eigenfunctions, eigenpairs, sectors, results) and let go in "
            "seeded orders, at once or as garbage that a seeded collector finds later, also in the middle of native calls and inside callbacks; callbacks "
            "raise, return what is no number, or use the module themselves; allocations fail; arguments are lists, tuples or arrays, named or not, or wrong. "
            "Every value is compared with that of the same script without any letting go. Non-trivial: an object was used after its "
            "parent was let go, or a fault fired; distinct by execution hash")
    notes = ("leak", "pyleak", "pyvalue")
    flavour = ["c", "py"]
    plans_per_block = 150
    runs_golden = True
    real = ("matslise/pyslise (the binding code itself) and all matslise sources it uses, compiled from the working tree, Eigen, libstdc++; NOT real: pybind11 and CPython, "
            "neither of which is installed, are stand-ins written for this check (sim/py, sim/pycore.cpp) after their documented ownership rules")

    def block(self, rng, gold):
        return PyBlock(rng, gold, "y", nspec=10, wide=False)

    def nontrivial(self, p, r):
        if any(r.fired.get(k) for k in ("alloc", "cbthrow", "badret", "nest")): return True
        gone = set()
        for i, s in enumerate(p.steps):
            if s["a"]["op"] in ("drop",) or s["a"]["op"] == "build" and i: gone.add(s["o"])
            if s["a"]["op"] == "look" and s["o"] in gone: return True
        return False

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def fault(self, rng, g):
        x = rng.random()
        if x < .5 and g["na"]: return alloc_fault(rng, g)
        if not g["ncb"]: return None
        if x < .8: return {"k": "cbthrow", "n": rnd_n(rng, g["ncb"]), "ty": rng.randrange(8)}
        return {"k": "badret", "n": rnd_n(rng, g["ncb"]), "ty": rng.randrange(4)}

    def letgo(self, m, o, t=0, ph=0):
        a = {"op": "drop"}
        if m.rng.random() < .5: a["late"] = 1
        return m.p.add(a, o=o, ph=ph, t=t)

    def nested(self, m, o, live, kept, t):
        """what a callback does besides computing a value"""
        rng, blk, p, ids = m.rng, m.b, m.p, []
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            if x < .3 and live:
                d = rng.choice(sorted(live))
                live.discard(d)
                ids.append(self.letgo(m, d, t, 2)["uid"])
            elif x < .5 and kept:
                s = rng.choice(kept)
                ids.append(p.add(s["a"], o=s["o"], ph=2, t=t, dep=s["dep"], slot=s["slot"])["uid"])
            elif x < .6: ids.append(p.add({"op": "gc"}, o=o, ph=2, t=t)["uid"])
            elif x < .8 and live:
                s = m.query(rng.choice(sorted(live)), 2, t)
                if s["dep"] is not None: ids.append(s["dep"])
                ids.append(s["uid"])
            else:
                k = rng.randrange(len(blk.specs))
                n = m.inst(k)
                ids.append(m.build(n, 2, t)["uid"])
                s = m.query(n, 2, t)
                if s["dep"] is not None: ids.append(s["dep"])
                ids.append(s["uid"])
                if rng.random() < .7: ids.append(self.letgo(m, n, t, 2)["uid"])
        return ids

    def script(self, m, shared, t, ph):
        rng, blk, p = m.rng, m.b, m.p
        live, kept = set(shared), []
        own = []
        for _ in range(rng.randrange(4, 12 if ph else 23)):
            if m.cost > 9e6: break
            x = rng.random()
            if not live or x < .16:
                k = rng.randrange(len(blk.specs))
                o = m.inst(k)
                g = blk.bgold(p.objs[o], p.sbs)
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                    f = self.fault(rng, g)
                    if f: m.build(o, ph, t, [f])
                f = []
                if g["ncb"] and rng.random() < .25:
                    ids = self.nested(m, o, live, kept, t)
                    if ids: f = [{"k": "nest", "n": rnd_n(rng, g["ncb"]), "steps": ids}]
                m.build(o, ph, t, f)
                live.add(o)
                own.append(o)
            elif x < .3:
                o = rng.choice(sorted(live))
                live.discard(o)
                self.letgo(m, o, t, ph)
            elif x < .34: p.add({"op": "gc"}, o=rng.choice(sorted(live)), ph=ph, t=t)
            elif x < .38: # made anew under the same name
                o = rng.choice(sorted(live))
                if o in own: m.build(o, ph, t)
            elif x < .6 and kept:
                s = rng.choice(kept)
                p.add(s["a"], o=s["o"], ph=ph, t=t, dep=s["dep"], slot=s["slot"])
                if rng.random() < .15:
                    kept.remove(s)
                    p.add({"op": "rmslot", "late": rng.choice([0, 1])}, o=s["o"], ph=ph, t=t, slot=s["slot"])
            else:
                o = rng.choice(sorted(live))
                w = blk.op(m.spec_of[o])
                if rng.random() < .2: w = blk.near(m.spec_of[o], w)
                f, fmk = [], []
                if w[2] and rng.random() < .2:
                    if w[1] is not None and rng.random() < .6:
                        gm = blk.gold.get(blk.specs[m.spec_of[o]], w[1])
                        if gm:
                            x = self.fault(rng, gm)
                            fmk = [x] if x else []
                    else:
                        x = self.fault(rng, w[2])
                        f = [x] if x else []
                s = m.query(o, ph, t, which=w, f=f, fmk=fmk)
                if s["dep"] is not None and not fmk:
                    kept.append(dict(s))
                    if rng.random() < .3:
                        live.discard(o)
                        self.letgo(m, o, t, ph)
                        if rng.random() < .8: p.add(s["a"], o=o, ph=ph, t=t, dep=s["dep"], slot=s["slot"])
                elif fmk:
                    m.query(o, ph, t, which=w)
        # at the end: what is kept is looked at once more, after everything else is gone
        if rng.random() < .5:
            for o in sorted(live):
                if ph == 0 or o in own: self.letgo(m, o, t, ph)
            if rng.random() < .5: p.add({"op": "gc"}, o=0, ph=ph, t=t)
            for s in kept[-3:]: p.add(s["a"], o=s["o"], ph=ph, t=t, dep=s["dep"], slot=s["slot"])

    def gen(self, blk):
        rng = blk.rng
        mt = rng.random() < .3
        m = Maker(blk, mt)
        m.fills()
        p = m.p
        p.cfg["heap"] = rng.choice([0, 0, 1, 1, 2])
        p.cfg["gc"], p.cfg["gcseed"] = rng.choice([0, 1, 3, 20, 200]), rng.randrange(1 << 30)
        p.cfg["hold"] = rng.choice([0, 1, 2, 3])
        if rng.random() < .05: return self.rounds(Maker(blk))
        shared = []
        if mt or rng.random() < .3:
            for _ in range(rng.choice([1, 2])):
                o = m.inst(rng.randrange(len(blk.specs)))
                m.build(o)
                shared.append(o)
        if not mt:
            self.script(m, shared, 0, 0)
        else:
            p.cfg["gil"] = rng.choice([1, 2, 5, 30])
            for t in range(1, rng.choice([2, 2, 3]) + 1): self.script(m, shared, t, 1)
        return valid_py(p)

    def rounds(self, m):
        """the same part of a script again and again: it must not use up memory"""
        rng, blk, p = m.rng, m.b, m.p
        m.fills()
        p.cfg["heap"] = rng.choice([0, 1, 2])
        prog = []
        for _ in range(rng.choice([1, 1, 2])):
            k = min((rng.randrange(len(blk.specs)) for _ in range(3)), key=lambda k: (blk.bgold(blk.specs[k], []) or {"st": 1 << 60})["st"])
            o = m.inst(k)
            g = blk.bgold(p.objs[o], [])
            if g is None: continue
            if rng.random() < .4:
                f = self.fault(rng, g)
                if f: prog.append(("build", o, f))
            prog.append(("build", o, None))
            for _ in range(rng.choice([1, 2, 3])):
                w = blk.op(k)
                f = self.fault(rng, w[2]) if w[2] and w[1] is None and rng.random() < .3 else None
                prog.append((w, o, f))
        for _ in range(rng.choice([3, 4])):
            for w, o, f in prog:
                f = [dict(f)] if f else []
                if w == "build": m.build(o, f=f)
                else: m.query(o, which=w, f=f)
                m.slots.clear()
            for o in range(len(p.objs)):
                p.add({"op": "dropslots"}, o=o)
                p.add({"op": "drop"}, o=o)
            if p.objs: p.add({"op": "gc"}, o=0)
            p.add({"op": "mark"}, o=-1)
        return p

    def extra(self, p, r):
        return self.growth(p, r)


def valid_py(p):
    """slots that were emptied or filled again are not what the reference of a later look says"""
    cur, drop = {}, []
    for s in p.steps:
        if s["a"]["op"] == "rmslot": cur.pop((s["o"], s["slot"]), None)
        elif s["a"].get("keep"): cur[(s["o"], s["slot"])] = s["uid"]
        if s["dep"] is not None and cur.get((s["o"], s["slot"])) != s["dep"]: drop.append(s["uid"])
    return p.without(drop) if drop else p


class JsBlock(Block):
    def new_spec(self, kinds, wide):
        return gen_js_spec(self.rng)

    def other_spec(self, s):
        return vary_js_spec(self.rng, s)

    def new_op(self, k):
        return gen_js_op(self.rng, self.specs[k], self.pools[k])

    def other_op(self, k, a, mk):
        return vary_js_op(self.rng, self.specs[k], self.pools[k], a, mk)


def consumes(a):
    return a["op"] in ("again", "dead") and not a.get("f")


class C13(Prop):
    rule = ("script: 4-24 calls of the JavaScript module by one simulated script: problems of its three classes are made, asked and deleted in seeded orders, their "
            "eigenfunctions kept, looked at, and deleted before or after the problem; callbacks that are running make, ask and delete further objects; deleted objects are "
            "deleted again or used; calls have too few or wrong arguments; allocations fail; or the same part of a script in rounds. Every value is compared with the native "
            "library's; what the script deleted must be gone. Non-trivial: something was deleted while other objects lived on, or a fault fired; distinct by execution hash")
    notes = ("leak", "jsleak")
    flavour = ["c", "js"]
    plans_per_block = 150
    runs_golden = True
    real = ("matslise/js (the binding code itself) and all matslise sources it uses, compiled from the working tree, Eigen, libstdc++; NOT real: embind and the JavaScript "
            "engine, neither of which is installed (nor is the compiler to WebAssembly), are stand-ins written for this check (sim/js, sim/jscore.cpp) after their documented "
            "ownership rules")

    def block(self, rng, gold):
        return JsBlock(rng, gold, "j", nspec=8, wide=False)

    def nontrivial(self, p, r):
        if any(r.fired.get(k) for k in ("alloc", "nest")): return True
        n = 0
        for s in p.steps:
            if s["a"]["op"] == "build": n += 1
            if s["a"]["op"] in ("drop", "rmslot", "again", "dead") and n > 1: return True
        return False

    def distinct(self, p, r):
        return r.stat.get("runhash")

    def nested(self, m, live, kept):
        """what a callback does besides computing a value"""
        rng, blk, p, ids = m.rng, m.b, m.p, []
        for _ in range(rng.choice([1, 1, 2])):
            x = rng.random()
            if x < .25 and live:
                d = rng.choice(sorted(live))
                self.gone(live, kept, d)
                ids.append(p.add({"op": "drop"}, o=d, ph=2)["uid"])
            elif x < .5 and kept:
                s = rng.choice(kept)
                if rng.random() < .3:
                    kept.remove(s)
                    ids.append(p.add({"op": "rmslot"}, o=s["o"], ph=2, slot=s["slot"])["uid"])
                else: ids.append(p.add(s["a"], o=s["o"], ph=2, dep=s["dep"], slot=s["slot"])["uid"])
            elif x < .75 and live:
                o = rng.choice(sorted(live))
                w = blk.op(m.spec_of[o])
                if consumes(w[0]): self.gone(live, kept, o)
                s = m.query(o, 2, which=w)
                if s["dep"] is not None: ids.append(s["dep"])
                ids.append(s["uid"])
            else:
                n = m.inst(rng.randrange(len(blk.specs)))
                ids.append(m.build(n, 2)["uid"])
                s = m.query(n, 2)
                if s["dep"] is not None: ids.append(s["dep"])
                ids.append(s["uid"])
                if rng.random() < .7: ids.append(p.add({"op": "drop"}, o=n, ph=2)["uid"])
        return ids

    @staticmethod
    def gone(live, kept, o):
        """the problem is deleted: its eigenfunctions may only be deleted from now on"""
        live.discard(o)
        kept[:] = [s for s in kept if s["o"] != o]

    def gen(self, blk):
        rng = blk.rng
        m = Maker(blk)
        m.fills()
        p = m.p
        p.cfg["delorder"] = rng.choice([0, 1])
        if rng.random() < .08: return self.rounds(m)
        live, kept, slots = set(), [], []
        for _ in range(rng.randrange(4, 25)):
            if m.cost > 9e6: break
            x = rng.random()
            if not live or x < .16:
                k = rng.randrange(len(blk.specs))
                o = m.inst(k)
                g = blk.bgold(p.objs[o], p.sbs)
                for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
                    if g["na"]: m.build(o, f=[alloc_fault(rng, g)])
                f = []
                if g["ncb"] and rng.random() < .3:
                    ids = self.nested(m, live, kept)
                    if ids: f = [{"k": "nest", "n": rnd_n(rng, g["ncb"]), "steps": ids}]
                m.build(o, f=f)
                live.add(o)
            elif x < .26:
                o = rng.choice(sorted(live))
                self.gone(live, kept, o)
                p.add({"op": "drop"}, o=o)
            elif x < .32: # made anew; the old one is deleted
                o = rng.choice(sorted(live))
                g = blk.bgold(p.objs[o], p.sbs)
                if g["na"] and rng.random() < .3: m.build(o, f=[alloc_fault(rng, g)])
                self.gone(set(), kept, o)
                m.build(o)
            elif x < .38 and slots:
                o, sl = slots.pop(rng.randrange(len(slots)))
                kept[:] = [s for s in kept if (s["o"], s["slot"]) != (o, sl)]
                p.add({"op": "rmslot"}, o=o, slot=sl)
            elif x < .6 and kept:
                s = rng.choice(kept)
                p.add(s["a"], o=s["o"], dep=s["dep"], slot=s["slot"])
            else:
                o = rng.choice(sorted(live))
                w = blk.op(m.spec_of[o])
                if rng.random() < .2: w = blk.near(m.spec_of[o], w)
                if consumes(w[0]) and rng.random() < .6: w = blk.op(m.spec_of[o])
                f, fmk = [], []
                if w[2] and rng.random() < .25:
                    if w[1] is not None and rng.random() < .6:
                        gm = blk.gold.get(blk.specs[m.spec_of[o]], w[1])
                        if gm and gm["na"]: fmk = [alloc_fault(rng, gm)]
                    elif w[2]["na"] and w[0]["op"] not in ("again", "dead"): f = [alloc_fault(rng, w[2])]
                if consumes(w[0]): self.gone(live, kept, o)
                s = m.query(o, which=w, f=f, fmk=fmk)
                if s["dep"] is not None:
                    slots.append((o, s["slot"]))
                    if not fmk: kept.append(dict(s))
                    else:
                        m.query(o, which=w)
                        slots.append((o, s["slot"] + 1))
        return valid_py(p)

    def rounds(self, m):
        """the same part of a script again and again: it must not use up memory"""
        rng, blk, p = m.rng, m.b, m.p
        p.cfg["heap"] = rng.choice([0, 1, 2])
        prog = []
        for _ in range(rng.choice([1, 1, 2])):
            k = min((rng.randrange(len(blk.specs)) for _ in range(3)), key=lambda k: (blk.bgold(blk.specs[k], []) or {"st": 1 << 60})["st"])
            o = m.inst(k)
            g = blk.bgold(p.objs[o], [])
            if g is None: continue
            if rng.random() < .4 and g["na"]: prog.append(("build", o, alloc_fault(rng, g)))
            prog.append(("build", o, None))
            for _ in range(rng.choice([1, 2, 3])):
                w = blk.op(k)
                if consumes(w[0]): continue
                prog.append((w, o, alloc_fault(rng, w[2]) if w[2] and w[2]["na"] and w[1] is None and w[0]["op"] not in ("again", "dead") and rng.random() < .3 else None))
        first = rng.random() < .5 # the problems are deleted before their eigenfunctions
        for _ in range(rng.choice([3, 4])):
            for w, o, f in prog:
                f = [dict(f)] if f else []
                if w == "build": m.build(o, f=f)
                else: m.query(o, which=w, f=f)
            m.slots.clear()
            for o in range(len(p.objs)):
                for op in (("drop", "dropslots") if first else ("dropslots", "drop")): p.add({"op": op}, o=o)
            p.add({"op": "mark"}, o=-1)
        return p

    def extra(self, p, r):
        return self.growth(p, r)


ALL = {c.__name__: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13)}

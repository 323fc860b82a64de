#!/usr/bin/env python3
"""check.py <property> | check.py --replay FILE"""
import bisect, hashlib, json, multiprocessing as mp, os, random, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import simbuild
from dst.model import Plan, seed_of
from dst.engine import Server, Gold, Judge, Minimiser, norm
from dst import props

NW = int(os.environ.get("SIM_WORKERS", "8"))


def known(prop):
    r = []
    f = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(f):
        for l in open(f):
            if l.startswith("finding: property=%s " % prop):
                w = dict(x.split("=", 1) for x in l.split()[1:4] if "=" in x)
                r.append((w.get("class"), w.get("match", "").replace("~", " "), l.strip()))
    return r


def symbolise(exe, text):
    """code addresses in a report get the name of their function"""
    pcs = set(re.findall(r"pc=([0-9a-f]{5,})", text))
    if not pcs:
        return text
    try:
        out = subprocess.run(["nm", "-C", exe], stdout=subprocess.PIPE, text=True).stdout
    except OSError:
        return text
    t = sorted((int(w[0], 16), w[2]) for w in (l.split(" ", 2) for l in out.split("\n")) if len(w) == 3 and w[0] and w[1] in "tTwWiV")
    for pc in pcs:
        i = bisect.bisect_right(t, (int(pc, 16), "~")) - 1
        if i >= 0:
            text = text.replace("pc=" + pc, "pc=%s in %s" % (pc, t[i][1][:160]))
    return text


class Worker:
    def __init__(self, wid, prop, exe, seed, tier, deadline, counter, stop, queue):
        self.wid, self.name, self.exe, self.seed, self.tier = wid, prop, exe, seed, tier
        self.deadline, self.counter, self.stop, self.queue = deadline, counter, stop, queue
        self.prop = props.ALL[prop]()
        self.prop.exe = exe
        self.prop.srv = self.srv = Server(exe)
        self.st = {"plans": 0, "runs": 0, "nontrivial": 0, "steps": 0, "events": 0, "switches": 0, "fired": {}, "compared": 0, "det": 0,
                   "det_fail": 0, "foreign": [], "classes": {}, "gold": 0, "gold_dirty": 0, "ops": {}, "ops_faulted": {}, "kinds": {}, "blocks": 0,
                   "outcomes": {}, "allocs": 0, "stalls": 0, "unconfirmed": 0, "heap": {}}
        self.distinct = set()
        self.sites, self.failed = set(), set()
        self.samples = []
        self.foreign_cls = {}

    def run(self):
        try:
            while time.time() < self.deadline and not self.stop.is_set():
                with self.counter.get_lock():
                    b = self.counter.value
                    self.counter.value += 1
                self.block(b)
            self.st["runs"] = self.srv.runs
            self.queue.put(("done", self.wid, self.st, self.distinct, self.samples, self.sites, self.failed))
        except Exception as e:
            import traceback
            self.queue.put(("error", self.wid, "%s\n%s" % (e, traceback.format_exc())))
        self.srv.close()

    def block(self, b):
        P, st = self.prop, self.st
        rng = random.Random(seed_of(self.seed, self.name, b))
        props.TARGETED.clear()
        gold = Gold(P.gold_server() if hasattr(P, "gold_server") else self.srv)
        blk = P.block(rng, gold) if hasattr(P, "block") else props.Block(rng, gold, P.kinds)
        P.judge = judge = Judge(gold, P.notes)
        if not blk.specs:
            return
        st["blocks"] += 1
        if P.runs_golden:
            for p, r in gold.dirty:
                self.consider(p, r, judge)
            gold.dirty = []
        for i in range(P.plans_per_block):
            if time.time() > self.deadline or self.stop.is_set():
                break
            p = P.gen(blk)
            if p is None:
                continue
            blk.finish(p)
            props.pass_time(rng, p)
            t0 = time.time()
            r = self.srv.run(p)
            if os.environ.get("SIM_DEBUG") and time.time() - t0 > 5:
                open(os.environ["SIM_DEBUG"], "a").write("SLOW %.1f %s %s\n%s\n" % (time.time() - t0, r.stat, r.viol, p.text()))
            self.account(p, r)
            if (i < 2 or i % 40 == 0) and not r.viol: # determinism: the same plan again, and its recorded schedule followed
                h = self.srv.run(p).hash()
                q = p.copy()
                q.sw = r.sched or ""
                h2 = self.srv.run(q).hash() if r.sched is not None else h
                st["det"] += 1
                if h != r.hash() or h2 != r.hash():
                    st["det_fail"] += 1
            self.consider(p, r, judge)
            if P.runs_golden and gold.dirty:
                for p2, r2 in gold.dirty:
                    self.consider(p2, r2, judge)
                gold.dirty = []
        st["gold"] += len(gold.cache)
        st["native"] = st.get("native", 0) + gold.natives
        st["gold_dirty"] += len(gold.dirty)
        self.sites |= gold.sites

    def account(self, p, r):
        st, P = self.st, self.prop
        st["plans"] += 1
        s = r.stat
        st["steps"] += int(s.get("steps", 0))
        st["events"] += int(s.get("events", 0))
        st["switches"] += int(s.get("nsw", 0))
        st["allocs"] += int(s.get("allocs", 0))
        for k, v in r.fired.items():
            st["fired"][k] = st["fired"].get(k, 0) + v
        self.failed.update(r.afsites)
        n = int(r.stat.get("stale", 0))
        if n: st["fired"]["staleread"] = st["fired"].get("staleread", 0) + n
        for i, x in r.R.items():
            stp = p.steps[i]
            if stp["o"] >= 0 and stp["a"]["op"] not in ("sb", "dropsb"):
                k = p.objs[stp["o"]]["kind"] + p.objs[stp["o"]].get("cls", "") + "." + stp["a"]["op"]
                st["ops"][k] = st["ops"].get(k, 0) + 1
                if x["nf"] or x["fired"]:
                    st["ops_faulted"][k] = st["ops_faulted"].get(k, 0) + 1
            o = x["status"].split(":")[0:4:1]
            o = "ok" if x["status"] in ("ok", "skip") else ":".join(x["status"].split(":")[:4])[:40]
            o = "".join(c for c in o if not c.isdigit())
            st["outcomes"][o] = st["outcomes"].get(o, 0) + 1
        st["compared"] += len(r.R)
        if P.nontrivial(p, r):
            h = P.distinct(p, r)
            if h not in self.distinct:
                self.distinct.add(h)
                if len(self.samples) < 1 and self.wid < 3:
                    self.samples.append(p.text()[:1500])

    def consider(self, p, r, judge):
        P = self.prop
        vs = judge(p, r) + P.extra(p, r)
        if not vs:
            return
        full = lambda q, rr: judge(q, rr) + P.extra(q, rr)
        for v in vs[:2]:
            cls = norm(v)
            if self.foreign_cls.get(cls, 0) >= 3:
                continue
            m = Minimiser(self.srv, full, cls, time.time() + (30 if self.tier == "quick" else 90))
            a, whole = None, p.copy() # as it is, with its schedule
            if r.sched is not None: whole.sw = r.sched
            if cls == "hang": # runs that take long: made smaller with a smaller budget, then tried with the whole one
                s = p.copy()
                s.cfg["budget"] = int(p.cfg.get("budget", 400000000)) // 20
                q = m.run(s)
                if q is not None:
                    q.cfg["budget"] = p.cfg.get("budget", 400000000)
                    a = self.srv.run(q)
                    if not any(norm(x) == cls for x in full(q, a)): q = None
            else:
                q = m.run(p)
            if q is None: q, a = whole, None
            # gate: twice in this server, once in a fresh one, identical executions
            if a is None: a = self.srv.run(q)
            b2 = a if cls == "hang" else self.srv.run(q)
            fresh = Server(self.exe)
            c = fresh.run(q)
            fresh.close()
            vv = [x for x in full(q, a) if norm(x) == cls]
            if not vv or a.hash() != b2.hash() or a.hash() != c.hash():
                self.st["unconfirmed"] += 1
                if os.environ.get("SIM_DEBUG"):
                    open(os.environ["SIM_DEBUG"], "a").write("UNCONFIRMED %s %s %s %s\n%s\n----\n%s" % (v, a.hash(), b2.hash(), c.hash(), p.text(), q.text()))
                continue
            vv = vv[0]
            if not P.ingredient(q, vv):
                self.foreign_cls[cls] = self.foreign_cls.get(cls, 0) + 1
                self.st["foreign"].append("%s: %s" % (vv[0], vv[1][:200]))
                continue
            kn = [k for k in known(self.name) if k[0] in (None, vv[0]) and k[1] in vv[1]]
            if kn:
                self.foreign_cls[cls] = self.foreign_cls.get(cls, 0) + 1
                continue
            d = os.path.join(VERIF, "build", "replays")
            os.makedirs(d, exist_ok=True)
            js = {"property": self.name, "class": vv[0], "violation": vv[1], "step": vv[2], "seed": self.seed, "flavour": P.flavour + (["q"] if props.QUAD else []),
                  "where": symbolise(self.exe, vv[1]), "runhash": a.hash(), "plan": q.to_json(), "plan_text": q.text(), "output": a.text[:6000]}
            f = os.path.join(d, "%s-%s.json" % (self.name, hashlib.sha256(q.text().encode()).hexdigest()[:12]))
            with open(f, "w") as fh:
                json.dump(js, fh, indent=1)
            self.queue.put(("violation", self.wid, f, (vv[0], js["where"], vv[2]), m.tries))
            self.stop.set()
            return


def work(*a):
    Worker(*a).run()


def add(d, e):
    for k, v in e.items():
        if isinstance(v, (int, float)): d[k] = d.get(k, 0) + v
        elif isinstance(v, dict): add(d.setdefault(k, {}), v)
        elif isinstance(v, list): d.setdefault(k, []).extend(v)


def check(name):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    P = props.ALL[name]
    flavour = list(P.flavour) + (["q"] if tier == "thorough" and "l" in P.flavour else [])
    props.QUAD = "q" in flavour
    try:
        exe, info = simbuild.build(flavour)
    except simbuild.BuildError as e:
        print("cannot build the simulator: %s" % e)
        return 2
    if hasattr(P, "prepare"):
        P.prepare(tier)
    secs = float(os.environ.get("SIM_SECONDS", "40" if tier == "quick" else "600"))
    t1 = time.time()
    deadline = t1 + secs
    counter, stop, queue = mp.Value("l", 0), mp.Event(), mp.Queue()
    ws = [mp.Process(target=work, args=(i, name, exe, seed, tier, deadline, counter, stop, queue)) for i in range(NW)]
    for w in ws: w.start()
    tot, distinct, samples, viols, errors, done, late = {}, set(), [], [], [], 0, 0
    sites, failed = set(), set()
    while done < NW:
        try:
            m = queue.get(timeout=deadline + 150 - time.time() if deadline + 150 > time.time() else .1)
        except Exception:
            late = NW - done
            break
        if m[0] == "done":
            done += 1
            add(tot, m[2])
            distinct |= m[3]
            samples += m[4]
            sites |= m[5]
            failed |= m[6]
        elif m[0] == "violation":
            viols.append(m)
        else:
            done += 1
            errors.append(m[2])
            stop.set()
    for w in ws:
        w.join(5)
        if w.is_alive(): w.terminate()
    wall = time.time() - t1
    ev = {"property": name, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 1), "violations": len(viols),
          "coverage": {
              "evaluations": tot.get("plans", 0), "distinct_nontrivial": len(distinct), "rule": P.rule, "samples": samples[:3],
              "simulated_runs": tot.get("runs", 0), "runs_per_hour": int(tot.get("runs", 0) / max(wall, 1) * 3600),
              "seeds": "every block b of plans is generated from sha256(%d/%s/b), b=0..%d" % (seed, name, counter.value - 1),
              "simulated_time": {"instrumented_events": tot.get("steps", 0), "scheduler_events": tot.get("events", 0),
                                 "thread_switches": tot.get("switches", 0), "allocations": tot.get("allocs", 0)},
              "faults_fired": tot.get("fired", {}),
              "allocation_sites": {"seen_in_isolated_runs": len(sites), "failed_at_least_once": len(failed), "seen_but_never_failed": len(sites - failed),
                                   "a_site": "the four innermost return addresses inside the program"}, "operations": tot.get("ops", {}), "operations_with_fault_fired": tot.get("ops_faulted", {}),
              "outcomes": tot.get("outcomes", {}), "results_compared": tot.get("compared", 0), "isolated_references": tot.get("gold", 0),
              "references_from_the_native_library": tot.get("native", 0),
              "references_excluded": tot.get("gold_dirty", 0),
              "determinism": {"plans_run_three_times": tot.get("det", 0), "differing": tot.get("det_fail", 0)},
              "workers_ended_early": late,
              "unconfirmed_alarms": tot.get("unconfirmed", 0), "alarms_belonging_to_other_properties": tot.get("foreign", [])[:5],
              "distinct_by": "hash of the interleaving: sequence of (from, to, code address) of every switch" if name == "C01" else
                             "hash of the whole execution (operations, events, allocations, switches)",
              "real": P.real if hasattr(P, "real") else "all matslise sources (compiled from the working tree), Eigen, libstdc++ containers and exceptions",
              "simulated": "thread scheduling, mutexes/condition variables/once/static guards, heap, clock, coefficient functions, sector builders of kind 'user', callers",
              "build": {"seconds": info["seconds"], "tree": info["tree"], "flavour": flavour}},
          "assumptions": ["uninstrumented code (libstdc++.so, libm) is atomic with respect to scheduling",
                          "plain memory is sequentially consistent (races are reported by happens-before); atomics may read older stores where the C++ memory model lets them",
                          "the reference of a result is the same code run in isolation"]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", name + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known(name):
        print("KNOWN-FINDING: property=%s %s" % (name, k[2]))
    print("%s: %d plans, %d distinct, %d runs in %.0f s (build %.0f s), fired %s" % (
        name, tot.get("plans", 0), len(distinct), tot.get("runs", 0), wall, info["seconds"], tot.get("fired", {})))
    if tot.get("foreign"):
        print("alarms that do not belong to this property: %s" % tot["foreign"][:3])
    if tot.get("det_fail") or tot.get("unconfirmed"):
        print("warning: %d of %d determinism probes differ, %d alarms did not reproduce" % (tot.get("det_fail", 0), tot.get("det", 0), tot.get("unconfirmed", 0)))
    if late:
        print("warning: %d workers were ended before their last run was" % late)
    for e in errors[:2]:
        print("error: " + e)
    if viols:
        for v in viols[:1]:
            print("  %s: %s (step %d, %d runs to minimise)" % (v[3][0], v[3][1], v[3][2], v[4]))
            print("VIOLATION property=%s replay=%s" % (name, v[2]))
        return 1
    return 2 if errors else 0


def replay(f):
    js = json.load(open(f))
    exe, _ = simbuild.build(js["flavour"])
    P = props.ALL[js["property"]]()
    P.exe = exe
    if hasattr(P, "prepare"): P.prepare("quick")
    P.srv = srv = Server(exe)
    gold = Gold(P.gold_server() if hasattr(P, "gold_server") else srv)
    P.judge = judge = Judge(gold, P.notes)
    p = Plan.from_json(js["plan"])
    r = srv.run(p)
    print(p.text())
    print(r.text)
    vs = judge(p, r) + P.extra(p, r)
    for v in vs:
        print("%s: %s (step %d)" % v)
    print("same execution as recorded: %s" % (r.hash() == js["runhash"]))
    srv.close()
    if any(v[0] == js["class"] for v in vs):
        print("VIOLATION property=%s replay=%s" % (js["property"], f))
        return 1
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[1]))

"""Running plans, isolated reference results, judging, minimising."""
import os, random, re, subprocess, time
from .model import Plan, Result, kvs, seed_of, Pool, gen_spec, gen_op

NATIVE = "yj" # kinds of objects made through a binding
GOLD_MAX = 2500000  # instrumented events one operation may take to be used in plans


class Server:
    def __init__(self, exe):
        self.exe, self.p, self.runs = exe, None, 0

    def run(self, plan):
        return self.run_text(plan if isinstance(plan, str) else plan.text())

    def run_text(self, text):
        for attempt in range(2):
            if self.p is None:
                env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C"}
                self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, bufsize=1 << 16)
            try:
                self.p.stdin.write(text)
                self.p.stdin.flush()
                out = []
                while True:
                    l = self.p.stdout.readline()
                    if not l:
                        raise OSError("server died")
                    if l == "END\n":
                        break
                    out.append(l)
                self.runs += 1
                return Result("".join(out))
            except OSError:
                try:
                    self.p.kill()
                    self.p.wait()
                except OSError:
                    pass
                self.p = None
        raise RuntimeError("simulator does not run")

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


class Gold:
    """what an operation gives as the only one in a fresh process"""

    def __init__(self, srv, maxst=GOLD_MAX):
        self.srv, self.cache, self.maxst, self.dirty, self.natives, self.sites = srv, {}, maxst, [], 0, set()

    def get(self, spec, a, mk=None, sb=None):
        """result record of the step a on object spec; None when it cannot serve as a reference"""
        if "envdie" in spec: # in isolation the coefficient functions stay as they are
            spec = {k: v for k, v in spec.items() if k != "envdie"}
        key = kvs(spec) + "|" + (kvs(sb) if sb else "") + "|" + (kvs(mk) if mk else "") + "|" + kvs(a)
        if key not in self.cache:
            p = Plan()
            p.cfg = {"record": 1, "heap": 0, "fill": "00", "budget": 40000000, "sites": 1}
            p.objs = [spec]
            if "sb" in spec:
                p.objs = [dict(spec, sb=0)]
                p.sbs = [sb]
                p.add({"op": "sb"}, o=0)
            n = None
            if a["op"] != "build":
                n = p.add({"op": "build"}, o=0)
            if mk:
                n = p.add(mk, o=0, slot=0)
            s = p.add(a, o=0, slot=0 if mk else None)
            r = self.srv.run(p)
            i = p.ids()[s["uid"]]
            g = r.R.get(i)
            if r.viol or g is None or g["status"] == "skip" or any(k in ("leak",) for k, _, _ in r.notes):
                if not r.viol or r.viol[0] != "hang": # too long for a reference is not wrong
                    self.dirty.append((p, r))
                g = None
            elif g["st"] > self.maxst:
                g = None
            else:
                g = dict(g)
                g["prof"] = r.prof.get("lines")
                g["notes"] = r.notes
                g["sites"] = r.sites.get(i, ())
                self.sites.update(x[0] for x in g["sites"])
            if mk and g and p.steps:
                m = r.R.get(p.ids()[n["uid"]])
                if not m or m["status"] != "ok":
                    g = None
            if g is not None and spec["kind"] in NATIVE: # the values are those of the native library
                p2 = p.copy()
                p2.objs = [dict(spec, native=1)]
                n = self.srv.run(p2).R.get(i)
                if n and n["status"] != "skip" and n["d"] is not None:
                    g["status"], g["d"], g["text"] = n["status"], n["d"], n["text"]
                    self.natives += 1
            self.cache[key] = g
        return self.cache[key]


TOK = {0: "exc:std::runtime_error:token%d", 1: "exc:TokenError:%d:token%d", 2: "exc:int:%d", 3: "exc:NonStd:%d", 4: "exc:TokenBadAlloc:%d",
       5: "exc:ptr:%d", 6: "exc:std::out_of_range:token%d", 7: "exc:std::domain_error:token%d"}


def token(ty, pay):
    return TOK[ty] % ((pay, pay) if ty == 1 else pay)


ROUNDING = ("up", "down", "zero")
FAULTY = ("alloc", "cbthrow", "copythrow", "builderthrow", "cbval", "badret")


class Judge:
    """the oracle. notes: kinds of invariant reports that count for the property"""

    def __init__(self, gold, notes=(), cbval=False):
        self.gold, self.notes, self.cbval = gold, set(notes), cbval

    def ref(self, p, s):
        if "dr" in s["a"]: # every round is different: only the memory counts
            return None
        spec = p.objs[s["o"]]
        sb = p.sbs[spec["sb"]] if "sb" in spec else None
        mk = None
        if s["dep"] is not None:
            mk = next(x["a"] for x in p.steps if x["uid"] == s["dep"])
        return self.gold.get(spec, s["a"], mk, sb)

    def __call__(self, p, r):
        out = []
        if r.viol:
            if r.viol[0] == "harness":
                raise RuntimeError("harness: " + r.viol[2] + "\n" + p.text())
            if r.viol[0] == "hang" and any(s["a"].get("k") in ROUNDING and s["a"]["op"] == "env" for s in p.steps):
                return [] # some bisections only end when midpoints are rounded to nearest; no property is about other modes
            out.append((r.viol[0], r.viol[2], r.viol[1]))
        if not r.viol and not r.stat:
            raise RuntimeError("no result: " + r.text[:500])
        for k, st, msg in r.notes:
            if k in self.notes:
                if k in ("batch", "late", "outside", "wrongthread") and st >= 0:
                    if any(f["k"] == "cbval" for f in p.steps[st]["f"]) or self.tainted(p, p.steps[st]): continue
                out.append((k, msg, st))
        rounding = False
        for i, s in enumerate(p.steps):
            g = r.R.get(i)
            if g is None:
                continue
            op = s["a"]["op"]
            if op == "env" and s["a"]["k"] in ROUNDING: # rounds differently from now on: nothing to compare with
                rounding = True
            if s["o"] < 0 or op in ("env", "mark", "yield", "drop", "dropslots", "killenv", "rmslot", "sb", "dropsb", "gc"):
                if g["status"] not in ("ok", "skip") and not s["f"]:
                    out.append(("mismatch", "%s: %s" % (op, g["status"]), i))
                continue
            if rounding or self.tainted(p, s):
                if g["status"].startswith("exc:unknown"):
                    out.append(("exception", "%s: %s" % (op, g["status"]), i))
                continue
            if g["status"] == "skip":
                continue
            ref = None
            rec = None
            for f in s["f"]:
                if f["k"] in FAULTY:
                    rec = f
            if rec is not None and rec["k"] == "alloc":
                if g["nf"] > 0:
                    if g["status"] in ("exc:std::bad_alloc:std::bad_alloc", "exc:py:MemoryError:std::bad_alloc"):
                        continue
                    ref = self.ref(p, s)
                    if ref is None: continue
                    if g["status"] != "ok" and g["status"] != ref["status"]:
                        out.append(("alloc-exception", "%s with a failed allocation ended with %s" % (op, g["status"]), i))
                    elif g["status"] != ref["status"] or g["d"] != ref["d"]:
                        out.append(("alloc-result", "%s with a failed allocation returned a different result: %s instead of %s" % (op, g["text"], ref["text"]), i))
                    continue
            elif rec is not None and rec["k"] in ("cbthrow", "copythrow", "builderthrow", "badret"):
                if g["fired"] > 0:
                    n = int(rec["n"])
                    exp = "exc:py:RuntimeError:Unable_to_cast_Python_instance_to_C++_type" if rec["k"] == "badret" else token(rec.get("ty", 0), i * 1000 + (n % 1000 if rec["k"] == "cbthrow" else n))
                    if g["status"] != exp:
                        out.append(("exception", "%s: callback threw %s, caller got %s" % (op, exp, g["status"]), i))
                    elif g["after"]:
                        out.append(("called-after-throw", "%s: callback called %d more times after it threw" % (op, g["after"]), i))
                    continue
            ref = self.ref(p, s)
            if ref is None:
                continue
            if g["status"] != ref["status"] or g["d"] != ref["d"]:
                out.append(("mismatch", "%s gave %s %s, alone it gives %s %s" % (op, g["status"], g["text"], ref["status"], ref["text"]), i))
        return out

    @staticmethod
    def tainted(p, s):
        """built from garbage values: nothing to compare with"""
        bad = False
        for x in p.steps:
            if x is s:
                return bad or any(f["k"] == "cbval" for f in s["f"])
            if x["o"] == s["o"] and s["o"] >= 0 and x["a"]["op"] not in ("sb", "dropsb"):
                if x["a"]["op"] == "build":
                    bad = any(f["k"] == "cbval" for f in x["f"])
                elif x["a"]["op"] in ("ltq", "ltcopy") and any(f["k"] == "cbval" for f in x["f"]):
                    pass
        return bad


def norm(v):
    """identity of a violation, up to what changes when steps are removed"""
    cls, msg, st = v
    msg = re.sub(r"pc=[0-9a-f]+|t\d+|step[ =]-?\d+|0x[0-9a-f]+|\d+", "#", msg)
    return cls


class Minimiser:
    def __init__(self, srv, judge, cls, deadline, opof=None):
        self.srv, self.judge, self.cls, self.deadline, self.opof = srv, judge, cls, deadline, opof
        self.tries = 0

    def fails(self, p, seeds=1):
        """plan with explicit schedule that still shows a violation of the class, or None"""
        mt = any(s["ph"] == 1 for s in p.steps)
        for k in range(seeds if mt and p.sw is None else 1):
            if time.time() > self.deadline:
                return None
            q = p.copy()
            if k:
                q.cfg["seed"] = p.cfg.get("seed", 1) + k * 7919
            self.tries += 1
            r = self.srv.run(q)
            if any(norm(v) == self.cls for v in self.judge(q, r)):
                if mt and q.sw is None:
                    f = q.copy()
                    f.sw = r.sched or ""
                    self.last_frozen = f
                return q
        return None

    def run(self, p):
        p = p.copy()
        p.sw = None
        best = self.fails(p, 12)
        if best is None:
            return None
        mt = any(s["ph"] == 1 for s in p.steps)
        ns = 12 if mt else 1

        def attempt(c):
            nonlocal best
            r = self.fails(c, ns)
            if r is not None:
                best = r
                return True
            return False

        # whole threads, then chunks of steps, then faults
        for t in sorted({s["t"] for s in best.steps if s["ph"] == 1}, reverse=True):
            attempt(best.without([s["uid"] for s in best.steps if s["ph"] == 1 and s["t"] == t]))
        changed = True
        while changed and time.time() < self.deadline:
            changed = False
            n = max(1, len(best.steps) // 2)
            while n >= 1 and time.time() < self.deadline:
                i = 0
                while i < len(best.steps):
                    u = [s["uid"] for s in best.steps[i:i + n]]
                    if attempt(best.without(u)):
                        changed = True
                    else:
                        i += n
                n //= 2
            for s in list(best.steps):
                for fi in range(len(s["f"])):
                    c = best.copy()
                    x = next((x for x in c.steps if x["uid"] == s["uid"]), None)
                    if x is None or fi >= len(x["f"]):
                        continue
                    del x["f"][fi]
                    c = c.without([])
                    if attempt(c):
                        changed = True
                        break
        # simpler settings
        for k, v in (("heap", 0), ("order", 0), ("fill", "00"), ("ffill", "dd"), ("sfill", "5a"), ("state", 0)):
            if k in best.cfg and best.cfg[k] != v:
                c = best.copy()
                c.cfg[k] = v
                attempt(c)
        for i in range(len(best.objs)):
            for k, v in (("envdie", None), ("jumps", None), ("sc", "d")):
                if best.objs[i].get(k, v) != v:
                    c = best.copy()
                    c.objs[i] = {a: b for a, b in c.objs[i].items() if a != k}
                    if v is not None: c.objs[i][k] = v
                    attempt(c)
        best2 = best.prune_objs()
        if self.fails(best2, ns) is not None:
            best = self.fails(best2, ns) or best
        if not any(s["ph"] == 1 for s in best.steps):
            q = best.copy()
            return q
        # freeze the schedule and reduce it
        r = self.srv.run(best)
        f = best.copy()
        f.sw = r.sched or ""
        if self.fails(f) is None:
            return None
        sw = [x for x in f.sw.split(",") if x]
        n = max(1, len(sw) // 2)
        while n >= 1 and time.time() < self.deadline:
            i = 0
            while i < len(sw) and time.time() < self.deadline:
                c = f.copy()
                c.sw = ",".join(sw[:i] + sw[i + n:])
                if self.fails(c) is not None:
                    sw = sw[:i] + sw[i + n:]
                    f = c
                else:
                    i += n
            n //= 2
        return f

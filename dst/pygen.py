"""Scripts for the simulated Python interpreter."""
from .model import BOUND


def gen_py_spec(rng):
    cls = rng.choice("mmmmhhppssttcc")
    s = {"kind": "y", "cls": cls, "sc": "d", "kw": rng.choice([0, 1]), "form": rng.choice([0, 1, 2])}
    tol = rng.choice([1e-3, 1e-4, 1e-5, 1e-6])
    if cls in "mp":
        s["pot"] = rng.choice([0, 1, 1, 2, 3, 4, 6, 8])
        s["lo"], s["hi"] = rng.choice([(0, 3.141592653589793), (-1, 2), (0, 1), (-4, 4), (.1, 3)])
        s["c"] = [rng.choice([1, 2, .5, 5, -1]), rng.choice([.5, 1, 2]), .25]
        if cls == "p" and rng.random() < .5:
            s["K"] = rng.choice([[-1, 0, 0, -1], [1, .5, 0, 1], [1, 0, 0, 1]])
        if rng.random() < .3:
            s["jumps"] = sorted(rng.sample([.5, .25, 1, 1.5, 9], rng.choice([1, 2])), reverse=rng.random() < .5)
        if cls == "m" and rng.random() < .35:
            s["via"] = rng.choice([1, 2])
            if s["via"] == 1:
                s["pp"], s["pw"] = rng.choice([(10, 10), (0, 10), (11, 10)])
                s["lo"], s["hi"] = rng.choice([(0, 1), (0, 3.141592653589793)])
                s["c"] = [rng.choice([1, 2, 3]), .5, .25]
                s["pot"] = rng.choice([0, 1, 2, 6])
                s.pop("jumps", None)
                tol = max(tol, 1e-4)
            else:
                tol = max(tol, 1e-4)
    elif cls == "h":
        s["pot"] = rng.choice([1, 2, 2, 5, 7, 8, 4])
        s["hi"] = rng.choice([1, 3, 5])
        s["c"] = [rng.choice([1, 2, .5, 5]), 1]
    elif cls in "ts":
        s["pp"], s["pw"] = rng.choice([(0, 0), (10, 10), (0, 10), (10, 11), (11, 0)])
        s["pot"] = rng.choice([0, 1, 2, 6])
        s["lo"], s["hi"] = rng.choice([(0, 3.141592653589793), (0, 1), (.5, 4)])
        s["c"] = [rng.choice([1, 2, 3]), .5, .25]
        tol = max(tol, 1e-5)
    else:
        s["dim"] = rng.choice([1, 2, 2, 3])
        s["pot"] = rng.choice([0, 1, 2, 6])
        s["lo"], s["hi"] = rng.choice([(0, 3.141592653589793), (0, 1), (-1, 1)])
        s["c"] = [rng.choice([1, 2, .5]), .5, .25]
        s["lists"] = rng.choice([0, 1])
        if rng.random() < .7: s["n"] = rng.choice([1, 2, 3])
        else:
            s["tol"] = rng.choice([1e-2, 1e-3])
            if rng.random() < .3: s["jumps"] = [.5]
    if cls != "c" and (cls == "t" or rng.random() < .85): s["tol"] = tol
    return s


def vary_py_spec(rng, s):
    s = {k: (list(v) if isinstance(v, list) else v) for k, v in s.items()}
    w = rng.choice(["c", "c", "pot", "hi", "kw"])
    if w == "c": s["c"][0] = rng.choice([x for x in (1, 2, .5, 3) if x != s["c"][0]])
    elif w == "pot": s["pot"] = rng.choice([x for x in ([1, 2, 7, 8] if s["cls"] == "h" else [0, 1, 2, 6]) if x != s["pot"]])
    elif w == "hi": s["hi"] = s["hi"] + rng.choice([1, .5])
    else: s["kw"] = 1 - s["kw"]
    return s


def gen_py_op(rng, spec, pool):
    """(args, args of the step that keeps the object or None)"""
    c = spec["cls"]
    E = rng.choice(pool.E) if rng.random() < .8 else round(rng.uniform(-2, 40), 2)
    l, r = rng.choice(pool.b), rng.choice(pool.b)
    if c == "h": r = l
    i = pool.i if rng.random() < .6 else rng.choice([0, 1, 2])
    j = i + rng.choice([1, 1, 2, 3])
    xs = pool.xs(rng, n=rng.choice([1, 2, 3, 5]), srt=c == "h", out=c != "h")
    inx = [x for x in pool.x if c != "h" or x >= 0] or [0]
    x, x2 = rng.choice(inx), rng.choice(inx)
    if c in "mh":
        op = rng.choice(["eidx", "eigs", "eerr", "efun", "efun", "efun", "pairs", "pairs", "pairs", "attrs"] + (["prop", "prop", "merr", "sect", "sect", "sects"] if c == "m" else []))
    elif c == "p":
        op = rng.choice(["eidx", "eigs", "efun", "pairs", "pairs", "pairs", "prop", "merr"])
    elif c == "s":
        op = rng.choice(["eidx", "pairs", "pairs"])
    elif c == "t":
        op = rng.choice(["ltq", "ltq", "attrs"])
    else:
        op = rng.choice(["prop", "psi", "sect", "sect", "sects", "attrs"])
    if rng.random() < .06: op = "bad"
    a = {"op": op, "kw": rng.choice([0, 1]), "form": rng.choice([0, 1, 2])}
    if op in ("eidx", "pairs"): a.update(i=i, j=j)
    elif op == "eigs": a.update(E=E, E2=E + rng.choice([2, 8, 15]))
    elif op in ("eerr", "efun", "prop", "psi", "merr"): a.update(E=E)
    if op in ("eidx", "pairs", "eigs", "eerr", "efun", "merr", "bad") and c != "p":
        a.update(l=l, r=r)
        if rng.random() < .3 and op != "merr": a["one"] = 1
    if op in ("eerr", "efun") and c != "p" and rng.random() < .5: a["idx"] = rng.choice([-1, 0, 1, 2, 3, 7])
    if op in ("prop", "psi"):
        a.update(x=x, x2=x2)
        if c in "pc": a["y"] = rng.choice([[1, 0, 0, 1], [1, 1, 1, -1], [.5, 1, 0, 2]])
        else:
            a["l"] = l
            if rng.random() < .4: a["dy"] = [.3, 1]
    if op == "sect": a["k"] = rng.choice([0, 0, 1, 2, 5])
    if op == "ltq": a.update(m=rng.choice([0, 1, 2]), x=rng.choice(pool.x) if rng.random() < .5 else 0.1)
    if op == "bad": a["v"] = rng.randrange(9)
    if op in ("efun", "pairs", "sect", "sects") and rng.random() < .75 or op in ("attrs", "prop", "psi", "eidx") and rng.random() < .2:
        return {"op": "look", "xs": xs}, dict(a, keep=1)
    if op in ("efun", "pairs"): a["xs"] = xs
    return a, None


def vary_py_op(rng, spec, pool, a, mk):
    a, mk = dict(a), dict(mk) if mk else None
    d = mk if mk is not None else a
    k = rng.choice([k for k in d if k in ("E", "l", "kw", "form", "i", "k")] or ["kw"])
    if k == "E":
        y = rng.choice(pool.E)
        if "E2" in d: d["E2"] += y - d["E"]
        d["E"] = y
    elif k == "l":
        d["l"] = rng.choice(BOUND)
        if spec["cls"] == "h": d["r"] = d["l"]
    elif k == "i": d["i"], d["j"] = d["i"] + 1, d["j"] + 1
    elif k == "k": d["k"] = d["k"] + 1
    elif k == "kw": d["kw"] = 1 - d.get("kw", 0)
    else: d["form"] = (d["form"] + 1) % 3
    return a, mk

"""Scripts for the simulated JavaScript engine."""
from .model import BOUND


def gen_js_spec(rng):
    cls = rng.choice("mmmhhss")
    s = {"kind": "j", "cls": cls, "sc": "d", "form": rng.choice([0, 0, 1])}
    tol = rng.choice([1e-3, 1e-4, 1e-5, 1e-6, 1e-2])
    if cls == "m":
        s["pot"] = rng.choice([0, 1, 1, 2, 3, 4, 6, 8, 13, 14])
        s["lo"], s["hi"] = rng.choice([(0, 3.141592653589793), (-1, 2), (0, 1), (-4, 4), (.1, 3)])
        s["c"] = [rng.choice([1, 2, .5, 5, -1]), rng.choice([.5, 1, 2]), .25]
    elif cls == "h":
        s["pot"] = rng.choice([1, 2, 2, 5, 7, 8, 4, 0])
        s["hi"] = rng.choice([1, 3, 5])
        s["c"] = [rng.choice([1, 2, .5, 5]), 1]
    else:
        s["pp"], s["pw"] = rng.choice([(0, 0), (10, 10), (0, 10), (10, 11), (11, 0)])
        s["pot"] = rng.choice([0, 1, 2, 6])
        s["lo"], s["hi"] = rng.choice([(0, 3.141592653589793), (0, 1), (.5, 4)])
        s["c"] = [rng.choice([1, 2, 3]), .5, .25]
        tol = max(tol, 1e-5)
    s["tol"] = tol
    return s


def vary_js_spec(rng, s):
    s = {k: (list(v) if isinstance(v, list) else v) for k, v in s.items()}
    w = rng.choice(["c", "c", "pot", "hi", "tol"])
    if w == "c": s["c"][0] = rng.choice([x for x in (1, 2, .5, 3) if x != s["c"][0]])
    elif w == "pot": s["pot"] = rng.choice([x for x in ([1, 2, 7, 8] if s["cls"] == "h" else [0, 1, 2, 6]) if x != s["pot"]])
    elif w == "hi": s["hi"] = s["hi"] + rng.choice([1, .5])
    else: s["tol"] = 1e-4 if s["tol"] != 1e-4 else 1e-5
    return s


def gen_js_op(rng, spec, pool):
    c = spec["cls"]
    E = rng.choice(pool.E) if rng.random() < .8 else round(rng.uniform(-2, 40), 2)
    l, r = rng.choice(pool.b), rng.choice(pool.b)
    if c == "h" and rng.random() < .95: r = l
    i = pool.i if rng.random() < .6 else rng.choice([0, 1, 2])
    j = i + rng.choice([1, 1, 2, 3])
    xs = pool.xs(rng, n=rng.choice([1, 2, 3, 5]), srt=c == "h", out=c != "h")
    inx = [x for x in pool.x if c != "h" or x >= 0] or [0]
    op = rng.choice(["eidx", "pairs", "pairs", "pairs", "eerr"] + (["efun", "efun", "efun", "cefun", "sectp"] if c != "s" else []) + (["prop"] if c == "m" else []))
    x = rng.random()
    if x < .05: op = "bad"
    elif x < .1: op = rng.choice(["again", "dead"])
    a = {"op": op}
    if op in ("eidx", "pairs", "bad", "again", "dead"): a.update(i=i, j=j)
    if op not in ("eidx", "pairs", "sectp"): a["E"] = E
    if op != "sectp": a["l"] = l
    if op not in ("sectp", "prop"): a["r"] = r
    if op in ("eerr", "efun", "cefun", "bad"): a["idx"] = rng.choice([-1, -1, 0, 1, 2, 7])
    if op == "prop": a.update(x=rng.choice(inx), x2=rng.choice(inx))
    if op == "bad": a["v"] = rng.randrange(7)
    if op in ("again", "dead"): a["f"] = rng.choice([0, 1, 1])
    if op == "cefun": a["xs"] = xs
    if op in ("efun", "pairs") and rng.random() < .75:
        return {"op": "look", "xs": xs}, dict(a, keep=1)
    if op in ("efun", "pairs"): a.update(xs=xs, delorder=rng.choice([0, 1]))
    return a, None


def vary_js_op(rng, spec, pool, a, mk):
    a, mk = dict(a), dict(mk) if mk else None
    d = mk if mk is not None else a
    k = rng.choice([k for k in d if k in ("E", "l", "r", "i", "xs")] or ["none"])
    if k == "E": d["E"] = rng.choice(pool.E)
    elif k in ("l", "r"):
        d[k] = rng.choice(BOUND)
        if spec["cls"] == "h": d["l"] = d["r"] = d[k]
    elif k == "i": d["i"], d["j"] = d["i"] + 1, d["j"] + 1
    elif k == "xs": d["xs"] = d["xs"][1:] or d["xs"]
    return a, mk

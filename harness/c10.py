"""C10: compositions of models. """
import json
import os
import random

import common

NONE, NAN_TIME, NAN_INDEX, INF = -99, -77, -55, 1000
ABOVE, SPHERICAL, CARTESIAN = 0, 1, 2
PLAIN = [("sh", 0), ("sh", 1)]
POLES = [   # and common denominators
    {"sl": 1, "cl": 0, "d": 1, "so": 0, "co": 1, "e": 1},
    {"sl": 0, "cl": 1, "d": 1, "so": 0, "co": 1, "e": 1},
    {"sl": 0, "cl": 1, "d": 1, "so": -1, "co": 0, "e": 1},
    {"sl": 0, "cl": 1, "d": 1, "so": 0, "co": -1, "e": 1},
    {"sl": -1, "cl": 0, "d": 1, "so": 1, "co": 0, "e": 1},
    {"sl": 4, "cl": 3, "d": 5, "so": 0, "co": 1, "e": 1},
    {"sl": -3, "cl": 4, "d": 5, "so": 1, "co": 0, "e": 1},
    {"sl": 0, "cl": 1, "d": 1, "so": 3, "co": -4, "e": 5},
]
AXES = [[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0]]
TERMS = [(1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, -1), (2, 2), (2, -2)]
# models of the kinds of the design model
BASIC = {
    1: {"kind": "sh", "ext": 0, "pole": [], "terms": [[1, 0, 3, 0], [2, 1, 2, 0]],
        "start": -INF, "end": INF},
    2: {"kind": "dipole", "ext": 0, "pole": [POLES[2]], "terms": [[1, 1, 1, 2], [2, -2, -3, 1]],
        "start": -2, "end": 4},
    3: {"kind": "mio", "ext": 1, "pole": [POLES[3]], "terms": [[1, -1, 2, 0], [2, 0, 4, 0]],
        "start": -INF, "end": INF},
}


def point(u, rho, lon=(1, 0)):
    hor = u[0]**2 + u[1]**2
    root = int(round(hor**0.5))
    return {"u": list(u), "rho": rho, "hor": root if root*root == hor else -1, "lon": list(lon)}


POLAR = [point((0, 0, s), 1, lon) for s in (1, -1)
         for lon in ((1, 0), (0, 1), (-1, 0), (0, -1))]
EQUATOR = [point(u, 1) for u in AXES]
LOCAL = [point(u, 5) for u in ((3, 4, 0), (-4, 3, 0), (3, 0, 4), (-4, 0, 3), (0, 3, -4), (0, -4, -3))]
SKEW = [point(u, r) for u, r in (((1, 2, 2), 3), ((2, -1, -2), 3), ((-2, 2, 1), 3), ((-6, 3, 2), 7),
                                 ((2, 6, -3), 7), ((4, 4, -7), 9))]


def leaves(model):
    if model["kind"] != "comp":
        return [model]
    return [x for part in model["parts"] for x in leaves(part["model"])]


def pole_den(model):
    return model["pole"][0]["d"]*model["pole"][0]["e"] if model["pole"] else 1


def amplitude(model, k):
    """ bound of the field """
    if model["kind"] == "comp":
        return sum(abs(p["scale"])*amplitude(p["model"], k) for p in model["parts"])
    # coefficient times at most 12, MIO scale up to 4
    return (4 if model["kind"] == "mio" else 1)*sum(
        12*(abs(t[2]) + abs(t[3]*(k if abs(k) < 50 else 0))) for t in model["terms"])


def random_leaf(rnd):
    kind = rnd.choice(("sh", "sh", "dipole", "mio"))
    start, end = rnd.choice(((-INF, INF), (-2, 4), (0, 2), (1, 3), (2, 2), (-3, 1)))
    if kind == "mio":
        start, end = -INF, INF
    terms = []
    for n, m in rnd.sample(TERMS, rnd.choice((1, 2, 3, 5))):
        value = rnd.choice((1, -1, 2, 3, -4))*(2 if (n, m) == (2, 0) else 1)
        slope = rnd.choice((0, 1, -2))*(2 if (n, m) == (2, 0) else 1)
        terms.append([n, m, value, 0 if kind == "mio" or end - start > 100 or start == end else slope])
    return {"kind": kind, "ext": rnd.choice((0, 0, 1)),
            "pole": [rnd.choice(POLES)] if kind != "sh" else [],
            "terms": sorted(terms), "start": start, "end": end}


def random_options(rnd, prob):
    return {"lo": rnd.choice((1, 2)) if rnd.random() < prob else NONE,
            "hi": rnd.choice((1, 2, 2)) if rnd.random() < prob else NONE,
            "f107": rnd.choice((0, 1, 2, 3, NAN_INDEX)) if rnd.random() < prob*1.3 else NONE}


def random_comp(rnd, depth, pool):
    parts = []
    for _ in range(rnd.choice((0, 1, 2, 2, 3)) if rnd.random() < 0.97 else rnd.choice((5, 9))):
        if depth and rnd.random() < 0.35:
            model = random_comp(rnd, depth - 1, pool)
        else:
            model = rnd.choice(pool) if rnd.random() < 0.7 else random_leaf(rnd)
        parts.append({"model": model, "scale": rnd.choice((1, 1, 2, -1, -2, 0)),
                      **random_options(rnd, 0.25)})
    return {"kind": "comp", "parts": parts}


def call(rnd, tree, count, opts):
    """ random times and points """
    parts = {"kind": "comp", "parts": tree["parts"][:count]}
    dens = [pole_den(x) for x in leaves(parts)] or [1]
    big = max(dens)
    cin = rnd.choice((ABOVE, SPHERICAL, CARTESIAN))
    cout = rnd.choice((ABOVE, SPHERICAL, CARTESIAN))
    if ABOVE in (cin, cout):
        pool = POLAR + EQUATOR
    elif cout == SPHERICAL:
        pool = POLAR + EQUATOR + LOCAL*2
    else:
        pool = POLAR + EQUATOR + LOCAL + SKEW*2
    if cin == CARTESIAN:      # the longitude of a pole is 0
        pool = [p for p in pool if p["hor"] or p["lon"] == [1, 0]]
    scale = abs(opts["scale"]) if opts["scale"] != NONE else 1
    picked, times, den = [], [], []
    while len(picked) < 5:
        p = rnd.choice(pool)
        k = rnd.choice((-3, -1, 0, 1, 2, 2, 3, 5, NAN_TIME))
        d = (p["rho"]*big)**3*big
        frame = p["rho"]*max(p["hor"], 1) if cout != CARTESIAN else 1
        if p["hor"] < 0 and cout != CARTESIAN:
            continue
        if amplitude(parts, k)*scale*d*frame*2 > 2e9:
            p = rnd.choice([q for q in EQUATOR + POLAR if q in pool])
            d, frame = big**4, 1
        picked.append(p)
        times.append(k)
        den.append(d)
    frames = [p["rho"]*(p["hor"] or 1) if cout != CARTESIAN else 1 for p in picked]
    return {"count": count, "opts": opts, "points": picked, "times": times, "den": den,
            "dens": [d*f for d, f in zip(den, frames)], "cin": cin, "cout": cout,
            "form": rnd.choice(("single", "array")), "general": int(rnd.random() < 0.15)}


def from_design(rnd, item):
    """ replay of a history of the design model """
    parts = [{"model": BASIC[p["kind"]], "scale": p["scale"], "lo": NONE, "hi": p["hi"], "f107": NONE}
             for p in item["parts"]]
    for n in item["nested"]:
        inner = [{"model": BASIC[p["kind"]], "scale": p["scale"], "lo": NONE, "hi": p["hi"],
                  "f107": NONE} for p in n["parts"]]
        parts.insert(rnd.choice((0, len(parts))), {
            "model": {"kind": "comp", "parts": inner}, "scale": n["scale"],
            "lo": NONE, "hi": n["hi"], "f107": NONE})
    tree = {"kind": "comp", "parts": parts}
    opts = {"lo": NONE, "hi": item["opts"]["hi"], "f107": NONE, "scale": item["opts"]["scale"]}
    plain = all(p["scale"] == 1 and p["hi"] == NONE for p in parts)
    constructor = int(plain and rnd.random() < 0.5)
    counts = [len(parts)] if constructor else sorted({rnd.randrange(len(parts) + 1), len(parts)})
    return {"tree": tree, "constructor": constructor,
            "calls": [call(rnd, tree, n, opts) for n in counts]}


def from_random(rnd, pool):
    tree = random_comp(rnd, 2, pool)
    constructor = int(all(p["scale"] == 1 and p["hi"] == p["lo"] == p["f107"] == NONE
                          for p in tree["parts"]) and rnd.random() < 0.5)
    calls = []
    for n in range(len(tree["parts"]) + 1):
        if constructor and n < len(tree["parts"]):
            continue
        for _ in range(rnd.choice((1, 2))):
            opts = random_options(rnd, 0.25)
            opts["scale"] = rnd.choice((NONE, NONE, 1, 2, -3))
            calls.append(call(rnd, tree, n, opts))
    return {"tree": tree, "constructor": constructor, "calls": calls}


def plain_sum(rnd, pool):
    """ models without any option """
    parts = [{"model": rnd.choice(pool), "scale": 1, "lo": NONE, "hi": NONE, "f107": NONE}
             for _ in range(rnd.choice((1, 2, 3)))]
    tree = {"kind": "comp", "parts": parts}
    opts = {"lo": NONE, "hi": NONE, "f107": NONE, "scale": NONE}
    calls = [call(rnd, tree, len(parts), opts) for _ in range(6)]
    return {"tree": tree, "constructor": rnd.randrange(2), "calls": calls}


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc(
        "Assembly", check.pick(None, "AssemblyDeep"), env={"OUT": exported},
        heap="4g", workers=check.pick(1, 4))
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    items = [json.loads(x) for x in common.read_ndjson(exported)]
    items.sort(key=json.dumps)
    items = rnd.sample(items, min(len(items), check.pick(1000, 12000)))
    scens = [from_design(rnd, item) for item in items]
    pool = [random_leaf(rnd) for _ in range(12)] + list(BASIC.values())
    scens += [from_random(rnd, pool) for _ in range(check.pick(500, 6000))]
    scens += [plain_sum(rnd, pool) for _ in range(check.pick(20, 300))]
    observations = common.run_workers(root, "assembly", scens)
    check.phase("execute")
    lines, origin = [], []
    for scen, obs in zip(scens, observations):
        if "crash" in obs:
            lines.append({"obs": {"crash": obs["crash"]}})
            origin.append(scen)
            continue
        for item, record in zip(scen["calls"], obs["records"]):
            lines.append({
                "model": {"kind": "comp", "parts": scen["tree"]["parts"][:item["count"]]},
                "opts": item["opts"], "times": item["times"], "points": item["points"],
                "den": item["den"], "out": 2 if item["cout"] == CARTESIAN else 1, "obs": record})
            origin.append({"tree": scen["tree"], "constructor": scen["constructor"], "call": item})
    bad, _, counts, runs = common.validate("TraceAssembly", lines, shards=6)
    check.add_trace(lines, runs, counts, traces=len(scens))
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": origin[idx], "observed": lines[idx]["obs"]})
    check.phase("validate")


if __name__ == "__main__":
    common.main("C10", run)

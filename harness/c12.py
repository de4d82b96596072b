"""C12: MIO models. """
import json
import os
import random

import common
import c10

NONE, NAN_TIME, NAN_INDEX = -99, -77, -55
ABOVE, SPHERICAL, CARTESIAN = 0, 1, 2
AXIAL = [p for p in c10.POLAR + c10.EQUATOR]
SUNS = [[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [3, 0, 4], [0, 4, -3], [-4, 0, 3], [0, -3, -4]]
MERIDIAN = [[1, 0, 0], [3, 0, 4], [4, 0, -3], [3, 0, -4]]
PARALLEL = SUNS[:4]
ALWAYS = [-1000, 1000]


def random_terms(rnd, fourier):
    out = []
    for n, m in rnd.sample(c10.TERMS, rnd.choice((1, 2, 3))):
        for _ in range(rnd.choice((1, 1, 2))):
            even = 2 if (n, m) == (2, 0) else 1
            out.append([n, m, rnd.choice((0, 1, -1, 2, -2)) if fourier else 0,
                        rnd.choice((0, 1, -1, 2, -3)) if fourier else 0,
                        even*rnd.choice((1, -1, 2, 3)), even*rnd.choice((0, 0, 1, -2))])
    return out


def random_elem(rnd, pool):
    return {"p": rnd.choice(pool), "r": rnd.choice((1, 2, 4)), "side": 0, "q": rnd.randrange(8),
            "sun": rnd.choice(SUNS), "f": rnd.choice((0, 1, 2, NAN_INDEX))}


def finish(rnd, item, pool):
    """ fill the common values and the denominators """
    fgiven, sgiven, tgiven, lgiven = item["given"]
    first = item["elems"][0]
    for e in item["elems"]:
        if fgiven == "none":
            e["f"] = NONE
        elif fgiven == "scalar":
            e["f"] = first["f"]
        # one common latitude or longitude in the geographic frame
        if sgiven in ("lats", "lons"):
            item["pole"] = c10.POLES[0]
            e["sun"] = rnd.choice(MERIDIAN if sgiven == "lats" else PARALLEL)
        if sgiven == "scalar":
            e["sun"] = first["sun"]
        if tgiven == "scalar":
            e["q"] = first["q"]
        if lgiven == "scalar":
            e.update(p=first["p"], r=first["r"], side=first["side"])
    if sgiven == "default":
        for key in ("below", "above"):
            for t in item[key]:
                t[3] = 0
    q = item["pole"]
    dd = q["d"]*q["e"]
    size = sum(12*(abs(t[4]) + abs(t[5])) for t in item["below"] + item["above"])*3*3*256
    item["dens"] = []
    for e in item["elems"]:
        d = (e["p"]["rho"]*dd)**3*dd*16
        frame = e["p"]["rho"]*(e["p"]["hor"] or 1) if item["cout"] != CARTESIAN else 1
        if size//16*d*frame > 2e9 or frame < 0:
            return None
        item["dens"].append(d*frame)
    item["out"] = 2 if item["cout"] == CARTESIAN else 1
    return item


def pool_of(cin, cout):
    if ABOVE in (cin, cout):
        pool = AXIAL
    elif cout == SPHERICAL:
        pool = AXIAL + c10.LOCAL*2
    else:
        pool = AXIAL + c10.LOCAL + c10.SKEW
    if cin == CARTESIAN:
        pool = [p for p in pool if p["hor"] or p["lon"] == [1, 0]]
    return pool


def from_design(rnd, call):
    h = 2
    elems = []
    cin = rnd.choice((SPHERICAL, SPHERICAL, CARTESIAN, ABOVE))
    if any(e["level"] == 0 for e in call["elems"]):
        cin = SPHERICAL
    cout = rnd.choice((ABOVE, SPHERICAL, CARTESIAN))
    pool = pool_of(cin, cout)
    for e in call["elems"]:
        elem = random_elem(rnd, pool)
        elem["r"], elem["side"] = {
            -1: rnd.choice(((1, 0), (2, -1))), 0: (2, 0), 1: rnd.choice(((4, 0), (2, 1)))}[e["level"]]
        if cin != SPHERICAL:
            elem["r"], elem["side"] = {-1: (1, 0), 1: (4, 0)}[e["level"]]
        elem["f"] = NAN_INDEX if e["f"] == -1 else e["f"]
        elem["q"] = rnd.randrange(2, 6) if e["ok"] else rnd.choice((0, 1, 6, 7, NAN_TIME))
        elems.append(elem)
    item = {"ev": "field", "kind": "primary", "h": h, "valid": [2, 5], "elems": elems,
            "below": random_terms(rnd, True), "above": random_terms(rnd, True),
            "pole": rnd.choice(c10.POLES[:5]), "lo": NONE, "hi": NONE, "scale": NONE,
            "given": [call["given"], rnd.choice(("default", "scalar", "array", "lats", "lons")), "array", "array"],
            "cin": cin, "cout": cout, "form": rnd.choice(("single", "array", "array", "matrix"))}
    return finish(rnd, item, pool)


def random_field(rnd):
    cin, cout = rnd.randrange(3), rnd.randrange(3)
    pool = pool_of(cin, cout)
    count = rnd.choice((1, 2, 3, 4, 6))
    elems = [random_elem(rnd, pool) for _ in range(count)]
    kind = rnd.choice(("internal", "external", "primary", "primary"))
    h = rnd.choice((1, 2, 2, 4))
    valid = rnd.choice((ALWAYS, ALWAYS, [1, 5]))
    for e in elems:
        if cin == SPHERICAL:
            e["side"] = rnd.choice((0, 0, 1, -1, 2, -3))
        elif e["r"] == h:
            e["r"] = rnd.choice([r for r in (1, 2, 4) if r != h])
        if rnd.random() < 0.1:
            e["q"] = NAN_TIME
    given = [rnd.choice(("none", "scalar", "array", "array")), rnd.choice(("default", "scalar", "array", "array", "lats", "lons")),
             rnd.choice(("array", "array", "scalar")), rnd.choice(("array", "array", "scalar"))]
    if given[2] == given[3] == "scalar":
        given[rnd.choice((2, 3))] = "array"
    item = {"ev": "field", "kind": kind, "h": h, "valid": valid, "elems": elems,
            "below": random_terms(rnd, rnd.random() < 0.8) if kind != "internal" else [],
            "above": random_terms(rnd, rnd.random() < 0.8) if kind != "external" else [],
            "pole": rnd.choice(c10.POLES), "lo": rnd.choice((NONE, NONE, 1, 2)),
            "hi": rnd.choice((NONE, NONE, 1, 2)), "scale": rnd.choice((NONE, NONE, 1, 2, -3)),
            "given": given, "cin": cin, "cout": cout,
            "form": rnd.choice(("single", "array", "array", "matrix"))}
    if given[2] == "scalar" or given[3] == "scalar":
        item["form"] = rnd.choice(("single", "array"))
    return finish(rnd, item, pool)


def others(rnd, size):
    out = []
    for _ in range(size):
        ns, np_ = rnd.choice((1, 2, 3, 5)), rnd.choice((1, 2, 4, 9))
        out.append({"ev": "fourier", "smin": rnd.choice((0, 1, -1, -2, -4, 3)), "pmin": rnd.choice((0, 1, -1, -4, -8, 2)),
                    "coeff": [[[rnd.randint(-5, 5) for _ in range(2)] for _ in range(np_)] for _ in range(ns)],
                    "how": rnd.choice(("fourier2d", "scaled", "query", "sheval2dfs")),
                    "at": [[rnd.choice((0, 6, rnd.randint(-50, 80))), rnd.choice((0, 12, rnd.randint(-50, 80)))]
                           for _ in range(6)]})
        out.append({"ev": "side", "height": rnd.choice((110.0, 110.0, 0.0, 90.5, 333.3, -20.0)),
                    "lat": rnd.choice((0.0, 90.0, -90.0, rnd.uniform(-90, 90), rnd.uniform(-90, 90))),
                    "lon": rnd.uniform(-180, 180), "shift": rnd.choice((0, 0, 0, 1e-9, -1e-9, 1e-3, -1e-3, 300.0, -300.0)),
                    "steps": rnd.choice((0, 0, 1, -1, 2, -2)), "cin": rnd.choice((1, 1, 0, 2)), "cout": rnd.randrange(3),
                    "f107": rnd.choice((None, None, 100.0, -20.0))})
    for _ in range(size//4):
        loaded = rnd.choice((0, 110.0, 90.0, 400.0))
        out.append({"ev": "wolf", "internal": rnd.random() < 0.5, "kind": rnd.randrange(3),
                    "ratio": rnd.choice((1485, 1485, 0, 1000, -700, 3000)),
                    "loaded": loaded, "shift": rnd.choice((-5.0, 5.0)),
                    "f": [0, 100, rnd.randint(-300, 900), rnd.randint(1, 300)]})
        out.append({"ev": "sheet", "loaded": int(rnd.random() < 0.4), "degree": rnd.choice((1, 2, 5, 8)),
                    "height": rnd.choice((110.0, 90.0, 400.0)),
                    "places": [[rnd.uniform(-88, 88), rnd.uniform(-180, 180)] for _ in range(5)]})
        out.append({"ev": "sun", "radius": rnd.choice((6400.0, 6900.0)),
                    "times": [rnd.uniform(-2000, 9000) for _ in range(4)]})
    return out


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("MioSwitch", check.pick(None, "MioSwitchDeep"), env={"OUT": exported},
                              heap="3g", workers=check.pick(1, 4))
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    calls = [json.loads(x) for x in sorted(common.read_ndjson(exported))]
    calls = [c for c in calls if c["elems"]]
    scens = [from_design(rnd, c) for c in rnd.sample(calls, min(len(calls), check.pick(2500, 8000)))]
    scens += [random_field(rnd) for _ in range(check.pick(2500, 15000))]
    scens = [s for s in scens if s] + others(rnd, check.pick(500, 3000))
    observations = common.run_workers(root, "mio", scens)
    check.phase("execute")
    lines = []
    for scen, obs in zip(scens, observations):
        line = {**scen, "obs": obs}
        for key in ("cin", "cout", "form", "dens", "height", "lat", "lon", "shift", "steps", "f107", "places",
                    "times", "radius", "loaded", "shift"):
            line.pop(key, None)
        lines.append(line)
    bad, _, counts, runs = common.validate("TraceMio", lines, shards=6)
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "observed": observations[idx]})
    check.phase("validate")


if __name__ == "__main__":
    common.main("C12", run)

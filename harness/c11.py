"""C11: coordinate conversions and vector rotations. """
import json
import math
import os
import random

import common
import large

LATS = [[1, 0, 1], [-1, 0, 1], [0, 1, 1], [3, 4, 5], [-3, 4, 5], [4, 3, 5], [-4, 3, 5]]
LONS = [[0, 1, 1], [0, -1, 1], [1, 0, 1], [-1, 0, 1], [-3, 4, 5], [4, -3, 5], [-4, -3, 5]]
POLES = [{"sl": a[0], "cl": a[1], "d": a[2], "so": o[0], "co": o[1], "e": o[2]}
         for a in LATS for o in LONS]
DIRS = [([1, 0, 0], 1), ([-1, 0, 0], 1), ([0, 1, 0], 1), ([0, -1, 0], 1), ([0, 0, 1], 1), ([0, 0, -1], 1),
        ([1, 2, 2], 3), ([-2, 1, -2], 3), ([2, -2, 1], 3), ([3, 4, 0], 5), ([-4, 0, 3], 5), ([0, -3, -4], 5),
        ([-6, -3, 2], 7), ([2, 6, -3], 7), ([4, -4, 7], 9), ([-8, 4, 1], 9), ([12, 3, 4], 13), ([-1, 12, -12], 17)]
WHATS = ["sheval", "dipole", "shevaltemp", "sheval2dfs", "model", "dipole_model", "mio", "composed"]
Q0 = POLES[0]


def graded(rnd, *specials):
    """ any distance from a special value """
    return rnd.choice(specials) + rnd.choice((1, -1))*10**rnd.uniform(-12, 0.5)


def any_geodetic(rnd):
    lat, lon, elv = common_geodetic(rnd)
    if rnd.random() < 0.3:
        lat = min(90.0, max(-90.0, graded(rnd, 0.0, 0.0, 45.0, -45.0, 90.0, -90.0)))
    if rnd.random() < 0.3:
        lon = min(180.0, max(-180.0, graded(rnd, 0.0, 90.0, -90.0, 180.0, -180.0)))
    if rnd.random() < 0.2:
        elv = graded(rnd, 0.0)
    return [lat, lon, elv]


def common_geodetic(rnd):
    lat = rnd.choice((90.0, -90.0, 0.0, 89.9, -89.5, rnd.uniform(-90, 90), rnd.uniform(-90, 90),
                      math.degrees(math.asin(rnd.uniform(-1, 1)))))
    lon = rnd.choice((180.0, -180.0, 0.0, 90.0, 179.9999, rnd.uniform(-180, 180), rnd.uniform(-180, 180)))
    elv = rnd.choice((0.0, 400.0, -100.0, 2000.0, 36000.0, rnd.uniform(-200, 1000)))
    return [lat, lon, elv]


def scenarios(rnd, walks, size):
    out = []
    for item in walks:
        out.append({"ev": "walk", **item, "turn": rnd.choice((0, 0, 1, -1)), "minus": rnd.randrange(2),
                    "how": rnd.randrange(2), "batch": rnd.randrange(2), "none": rnd.randrange(2)})
    for _ in range(size):
        v = [rnd.choice((0, rnd.randint(-30, 30), rnd.randint(-20000, 20000))) for _ in range(3)]
        if any(v):
            out.append({"ev": "vector", "v": v})
    for _ in range(size):
        lat = rnd.uniform(-88, 88)
        step = rnd.choice((1, -1))*10**rnd.uniform(-8, -1.5)
        out.append({"ev": "tilt", "v": [rnd.randint(-9, 9) for _ in range(3)], "lat": lat, "step": step, "lon": rnd.uniform(-180, 180),
                    "how": rnd.randrange(2), "types": rnd.choice(([0, 1], [1, 0]))})
    for u, rho in DIRS:
        for r in (1, 6371, 20000):
            for cin, cout in ((1, 2), (2, 1), (1, 1), (2, 2)):
                out.append({"ev": "point", "u": u, "rho": rho, "r": r, "cin": cin, "cout": cout,
                            "lon": rnd.choice((0.0, 90.0, -180.0, 137.0))})
    axial = [d for d in DIRS if d[1] == 1]
    for u, rho in axial:
        for r in (6371, 6400, 10000):
            for cin in range(3):
                for cout in range(3):
                    out.append({"ev": "point", "u": u, "rho": rho, "r": r, "cin": cin, "cout": cout,
                                "lon": rnd.choice((0.0, 90.0, -180.0, 137.0))})
    for _ in range(size):
        out.append({"ev": "geodetic", "cin": 0, "cout": rnd.choice((1, 2)), "x": any_geodetic(rnd)})
        r = rnd.choice((6356.0, 6371.2, 6800.0, 6200.0, 12000.0, 42000.0, rnd.uniform(5500, 50000), rnd.uniform(300, 5500)))
        lat, lon, _ = any_geodetic(rnd)
        out.append({"ev": "geodetic", "cin": 1, "cout": 0, "x": [lat, lon, r]})
        z = r*rnd.choice((0, 1, -1, rnd.uniform(-1, 1), rnd.uniform(-1, 1), rnd.choice((1, -1))*10**rnd.uniform(-12, -0.5)))
        p = math.sqrt(r*r - z*z)
        if rnd.random() < 0.2:
            p = r*10**rnd.uniform(-12, -0.5)
            z = rnd.choice((1, -1))*math.sqrt(r*r - p*p)
        az = rnd.choice((0, math.pi, rnd.uniform(-4, 4), rnd.uniform(-4, 4)))
        out.append({"ev": "geodetic", "cin": 2, "cout": 0, "x": [p*math.cos(az), p*math.sin(az), z]})
    for _ in range(2*size):
        path = [rnd.randrange(3)]
        while len(path) < rnd.choice((3, 3, 4, 5)):
            path.append(rnd.choice([t for t in range(3) if t != path[-1]]))
        lat, lon, elv = any_geodetic(rnd)
        near = 0
        if rnd.random() < 0.25:
            near = 1
            lat = rnd.choice((1, -1))*(90 - 10**rnd.uniform(-9, -1.5))
        elif abs(lat) > 89.95 and abs(lat) != 90:
            lat = graded(rnd, 0.0, 45.0)
        if path[0] == 2:
            r = 6371.2 + elv
            x = [r*math.cos(math.radians(lat))*math.cos(math.radians(lon)),
                 r*math.cos(math.radians(lat))*math.sin(math.radians(lon)), r*math.sin(math.radians(lat))]
            near = near or int(abs(lat) == 90)
        else:
            x = [lat, lon, elv + (6371.2 if path[0] == 1 else 0)]
            near = near or int(abs(lat) == 90)
        out.append({"ev": "round", "path": path, "x": x, "near": near})
    for k in range(size):
        how = k % 2
        # points next to the poles of the dipole have less certain directions
        lat = rnd.choice((1, -1))*rnd.uniform(5, 85) if how else rnd.uniform(-89.5, 89.5)
        lon = rnd.choice((0, 90, -90, 180))*(1 - how) + rnd.choice((1, -1))*rnd.uniform(5, 85)
        if not how and rnd.random() < 0.3:
            lat, lon = graded(rnd, 0.0, 45.0), graded(rnd, 0.0, 90.0, -90.0)
        out.append({"ev": "poles", "x": [lat, lon], "step": rnd.choice((1, -1))*10**rnd.uniform(-7, -1.5), "axis": rnd.randrange(2),
                    "turn": rnd.choice((0, 0, 1, -1)), "how": how})
    for q in POLES:
        out.append({"ev": "matrix", "q": q})
        dirs = rnd.sample(DIRS, 5) + axial[:2]
        axis = [q["cl"]*q["co"], q["cl"]*q["so"], q["sl"]*q["e"]]
        dirs += [(axis, q["d"]*q["e"]), ([-x for x in axis], q["d"]*q["e"])]
        for u, rho in dirs:
            cin = rnd.choice((0, 1, 2)) if rho == 1 else rnd.choice((1, 2))
            out.append({"ev": "dpoint", "q": q, "u": u, "rho": rho, "r": rnd.choice((6371, 7000)), "cin": cin})
        for _ in range(size//40):
            out.append({"ev": "dvector", "q": q, "la": rnd.choice(LATS), "lo": rnd.choice(LONS),
                        "la2": rnd.choice(LATS), "lo2": rnd.choice(LONS), "out": rnd.randrange(3),
                        "v": [rnd.randint(-3, 3) for _ in range(3)]})
    for what in WHATS:
        for _ in range(size//8):
            x = any_geodetic(rnd)
            x[2] = min(x[2], 2000.0)
            if 89.95 < abs(x[0]) < 90:
                # the position itself is lost in the Cartesian coordinates
                x[0] = graded(rnd, 0.0, 45.0)
            out.append({"ev": "field", "what": what, "internal": rnd.random() < 0.6, "x": x, "unit": 1e5})
    for item in out:
        item.setdefault("q", Q0)
    return out


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("FrameWalk", check.pick(None, "FrameWalkDeep"), env={"OUT": exported},
                              heap="3g", workers=check.pick(1, 4))
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    walks = sorted(common.read_ndjson(exported))
    walks = [json.loads(x) for x in rnd.sample(walks, min(len(walks), check.pick(1500, 30000)))]
    scens = scenarios(rnd, walks, check.pick(400, 5000))
    observations = common.run_workers(root, "frames", scens)
    check.phase("execute")
    lines = [{**scen, "obs": obs} for scen, obs in zip(scens, observations)]
    for line in lines:
        for name in ("x", "lat", "step", "types", "axis"):
            line.pop(name, None)
        line.pop("lon", None)
        line.pop("unit", None)
    bad, _, counts, runs = common.validate("TraceFrames", lines, shards=6)
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "observed": observations[idx]})
    large.run(check, root, rnd, large.FRAMES)
    check.phase("validate")


if __name__ == "__main__":
    common.main("C11", run)

"""C14: magnetic local time and sub-solar point. """
import json
import math
import os
import random

import common
import large
import memo
import parallel
from c11 import POLES

SINES = [[0, 1, 1], [1, 0, 1], [-1, 0, 1], [3, 4, 5], [-3, 4, 5], [4, 3, 5], [-4, 3, 5], [5, 12, 13], [-8, 15, 17]]
FULL = SINES + [[0, -1, 1], [3, -4, 5], [-4, -3, 5], [5, -12, 13], [-12, -5, 13]]
FIRST, LAST, MLT_FIRST = -145731, 36890, -36525


def walk(rnd, days, kind):
    """ sub-solar points at increasing times """
    day = rnd.choice(days)
    if kind == "edge":
        t = [[day - 1, 5760 - 1], [day, -1]] + [[day, q] for q in (0, 1, 2, 4, 240, 2880)]
        t = [[day - 1, q] for q in (2880, 5520, 5756, 5758)] + t
    elif kind == "day":
        qs = sorted(rnd.sample(range(5760), 11) + [0])
        t = [[day, q] for q in qs] + [[day + 1, 0]]
    elif kind == "days":
        q = rnd.choice((0, 0, 2880, rnd.randrange(5760)))
        t = [[day + k, q] for k in range(-3, 5)]
    else:
        t = sorted([day + rnd.randint(0, 365), rnd.randrange(5760)] for _ in range(10))
    return [x for x in t if FIRST <= x[0] < LAST + (x[1] < 0)]


def scenarios(rnd, days, size):
    out = []
    for k in range(size):
        t = walk(rnd, days, rnd.choice(("edge", "edge", "day", "days", "year")))
        if len(t) > 1 and t[0][1] >= 0:
            out.append({"ev": "walk", "t": t})
        epoch = rnd.choice((rnd.randint(MLT_FIRST + 1, 10950), rnd.randint(MLT_FIRST, LAST - 1),
                            rnd.choice([d for d in days if d > MLT_FIRST])))
        base = rnd.randint(-1440, 1440)
        steps = rnd.choice(([15*8*i for i in range(-12, 13)], [rnd.randint(-4000, 4000) for _ in range(12)],
                            [1, 2, 3, 8, 120, 2880, -2880, 1440, -1440, 4320]))
        out.append({"ev": "mlt", "t": [[epoch, rnd.choice((0, -1, rnd.randrange(5760), rnd.randrange(5760)))]], "q": [base] + [base + s for s in steps],
                    "pole": int(epoch < 10950), "form": rnd.choice(("array", "array", "scalar"))})
        lat, lon = rnd.choice(SINES), rnd.choice(FULL)
        sun = [lat[1]*lon[1], lat[1]*lon[0], lat[0]*lon[2]]
        pole = rnd.choice(POLES)
        # the sub-solar point at the dipole pole has no longitude
        mat = [[pole["sl"]*pole["co"], pole["sl"]*pole["so"], -pole["cl"]*pole["e"]],
               [-pole["so"]*pole["d"], pole["co"]*pole["d"], 0]]
        if any(sum(a*b for a, b in zip(row, sun)) for row in mat):
            out.append({"ev": "mut", "pole": pole, "place": [lat, lon], "sun": sun,
                        "turn": rnd.choice((0, 0, 360, -360)), "turn2": rnd.choice((0, 0, 1, -1)),
                        "form": rnd.choice(("scalar", "array"))})
    for _ in range(size//6):
        out.append({"ev": "default", "t": [[rnd.randint(-3000, 9000), rnd.randrange(5760)] for _ in range(4)],
                    "pole": [rnd.uniform(60, 89), rnd.uniform(-180, 180)]})
    for func, first in (("subsol", FIRST), ("mlt", MLT_FIRST)):
        for form in ("scalar", "array", "middle"):
            for time, inside in (
                    (first, 1), (math.nextafter(first, -1e9), 0), (first - 1, 0), (first + 0.5, 1),
                    (math.nextafter(LAST, 0), 1), (LAST, 0), (LAST + 400, 0), (1e7, 0), (-1e7, 0), (1e300, 0),
                    (float("inf"), 0), (float("-inf"), 0), (float("nan"), 0), (2**31, 0), (0, 1), (-0.5, 1)):
                out.append({"ev": "range", "func": func, "form": form, "time": float(time).hex(), "inside": inside})
    return out


def memo_groups(rnd, days, count, length):
    out = []
    for group in range(count):
        points = []
        for _ in range(14):
            day = rnd.choice((rnd.choice(days), rnd.randint(-36525, 11000), rnd.randint(-36525, 11000), -9999 - 730485))
            t = rnd.choice((day, day + rnd.random()))
            if rnd.random() < 0.12:
                t = rnd.choice((float("nan"), float("inf"), 1e9, -1e9))
            # epochs closer than a day may share the dipole pole
            points.append([rnd.choice((0.0, 180.0, -180.0, rnd.uniform(-180, 180))), t,
                           int(FIRST <= t < LAST), int(MLT_FIRST <= t < LAST),
                           int(math.isfinite(t))])
        calls = []
        for k in range(length):
            form = "scalar" if k % 5 == 0 else rnd.choice(("array", "refilled", "refilled", "reversed", "strided"))
            size = 1 if form == "scalar" else rnd.choice((2, 4, 8)) if form == "reversed" else rnd.choice((1, 2, 5, 9))
            calls.append([form, rnd.choice(("mlt", "mlt", "subsol", "ephemeris", "ut")), [rnd.randrange(14) for _ in range(size)]])
        out.append({"ev": "memo", "group": group, "points": points, "calls": calls})
    return out


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("SolarDays", env={"OUT": exported}, heap="3g", workers=2)
    together, threads = parallel.start(check)
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    days = sorted({int(json.loads(x)) for x in common.read_ndjson(exported)})
    scens = scenarios(rnd, days, check.pick(1500, 25000))
    if check.tier == "thorough":
        scens += [{"ev": "walk", "t": [[d - 1, 5759], [d, -1], [d, 0], [d, 1]]} for d in days if FIRST < d < LAST]
    observations = common.run_workers(root, "sun", scens)
    groups = memo_groups(rnd, days, check.pick(60, 600), check.pick(30, 60))
    memos = common.run_workers(root, "sun", groups, name="memo")
    check.add_design(common.finish_tlc(threads))
    parts = parallel.groups(rnd, together, ["mlt", "subsol"], check.pick(40, 400))
    concurrent = common.run_workers(root, "parallel", parts, name="threads")
    check.phase("execute")
    lines = []
    for scen, obs in zip(scens, observations):
        line = {**scen, "obs": obs}
        if scen["ev"] == "walk":
            first = scen["t"][0]
            line.update(at=[min((d - first[0])*5760 + max(q, 0) - first[1], 300000000) for d, q in scen["t"]],
                        phase=first[1], old=int(first[0] < -36525))
        for key in ("t", "place", "turn", "turn2", "form", "time", "func"):
            line.pop(key, None)
        if scen["ev"] == "default":
            line.pop("pole")
        lines.append(line)
    bad, _, counts, runs = common.validate("TraceSun", lines, shards=6)
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "observed": observations[idx]})
    records, owner = [], []
    for group, obs in zip(groups, memos):
        found = obs.get("records", [{"group": group["group"], "crash": obs.get("crash")}])
        records.extend(found)
        owner.extend([group]*len(found))
    found, owners = parallel.records(parts, concurrent)
    records, owner = records + found, owner + owners
    memo.validate(check, records, rtol=1e-5, atol=1e-5, detail=lambda i: owner[i])
    large.run(check, root, rnd, large.SUN)
    check.phase("validate")


if __name__ == "__main__":
    common.main("C14", run)

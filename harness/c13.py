"""C13: quasi-dipole coordinates. """
import json
import os
import random

import common
import large
import memo
import parallel

YEAR = 1461
NAN_TIME = -1000000000
LATS = [[0, 1, 1], [3, 4, 5], [-4, 3, 5], [-3, 4, 5], [1, 0, 1], [-1, 0, 1], [4, 3, 5]]
LONS = [[0, 1, 1], [1, 0, 1], [0, -1, 1], [-1, 0, 1], [3, 4, 5], [-4, 3, 5], [-3, -4, 5], [4, -3, 5]]
WHY = ["missing", "short", "header", "letters", "dims", "negative", "empty", "nodegree", "folder"]
SIZES = [[1, 1], [1, 1], [2, 1], [2, 2], [4, 2], [6, 3]]


def random_mats(rnd, epochs, lmax):
    """ well-conditioned random matrices with offsets """
    def mat(scale):
        return [[rnd.randint(-scale, scale) for _ in range(4)] for _ in range(3)]
    out = []
    for _ in epochs:
        base = [[v + (12 if i == j else 0) for j, v in enumerate(row)] for i, row in enumerate(mat(3))]
        if rnd.random() < 0.5:
            base = [base[1], base[2], base[0]]
        for row in base:
            row[3] = rnd.choice((0, 0, -1, 2))
        out.append([base] + [mat(2) for _ in range(lmax)])
    return out


def make_file(rnd, epochs=None):
    epochs = epochs or sorted(rnd.sample([1980, 1990, 1995, 2000, 2005, 2010, 2020, 2030], rnd.choice((1, 2, 2, 3, 4))))
    while any(b - a not in (5, 10, 15, 20, 25) for a, b in zip(epochs, epochs[1:])):
        epochs = epochs[:-1]
    return {"epochs": epochs, "mats": random_mats(rnd, epochs, rnd.choice((0, 1, 1))),
            "size": rnd.choice(SIZES)}


def point(rnd, rho=None, time=0):
    return {"lat": rnd.choice(LATS), "lon": rnd.choice(LONS), "rho": rho or rnd.choice((1, 2, 4)), "t": time,
            "turn": rnd.choice((0, 0, 0, 1, -1))}


def times(rnd, file):
    """ times of interest of the file """
    nodes = [(e - 2000)*YEAR for e in file["epochs"]]
    base = rnd.choice(nodes + [rnd.randint(nodes[0] - 6000, nodes[-1] + 6000) for _ in range(3)])
    return [base, base + 2, base - 2, base + 4, base + 40, base - 40, base + 700, base + YEAR*3,
            rnd.choice(nodes), rnd.choice(nodes), rnd.randint(-40000, 60000), nodes[0] - 3000, nodes[-1] + 3000,
            NAN_TIME, 100000000, -100000000, (-999 - 2000)*YEAR]


def from_design(rnd, histories):
    """ histories of the design model """
    out = []
    pool = []
    for k in range(12):
        first = make_file(rnd, [2000, 2005])
        second = make_file(rnd, rnd.choice(([1990, 2005, 2020], [1990, 2010], [1990, 2000, 2020])))
        pool.append((("limit%d-1" % k if k % 8 == 4 else "long%d-1" % k if k % 4 == 0 else "d%d-1" % k, first),
                     ("limit%d-2" % k if k % 8 == 4 else "long%d-2" % k if k % 4 == 0 else "d%d-2" % k, second)))
    for number, history in enumerate(histories):
        files = rnd.choice(pool)
        years = {0: (1980 - 2000)*YEAR, 3: 0, 4: 2, 6: 8*YEAR + 11, 8: 36*YEAR, -1: NAN_TIME}
        if rnd.random() < 0.5:
            years.update({3: 2*YEAR, 4: 2*YEAR + 3})
        alts = dict(zip((0, 1), rnd.sample((1, 2, 4), 2)))
        calls = []
        for step, call in enumerate(history):
            points = [point(rnd, alts[p["a"]], years[p["t"]]) for p in call["b"]]
            if call["f"] == 3:
                why = rnd.choice(WHY)
                calls.append({"ev": "refused", "name": "bad%d-%d" % (number, step), "why": why,
                              "file": files[0][1], "points": points, "calls": [rnd.randrange(2)]})
            else:
                name, file = files[call["f"] - 1]
                calls.append({"ev": "call", "name": name, "file": file, "points": points,
                              "calls": rnd.choice(([0], [1], [1], [0, 1], [1, 0]))})
        out.append({"ev": "history", "calls": calls})
    return out


def random_histories(rnd, count):
    out = []
    files = [("limit-r%d" % k if k % 10 == 5 else "long-r%d" % k if k % 5 == 0 else "r%d" % k, make_file(rnd)) for k in range(40)]
    for _ in range(count):
        calls = []
        subset = rnd.sample(files, 3)
        for _ in range(rnd.choice((2, 3, 4))):
            name, file = rnd.choice(subset)
            size = rnd.choice((1, 2, 4, 8, 12))
            pool = times(rnd, file)
            if rnd.random() < 0.3:
                pool = rnd.sample(pool, 2)
            points = [point(rnd, None, rnd.choice(pool)) for _ in range(size)]
            call = {"ev": "call", "name": name, "file": file, "points": points,
                    "calls": rnd.choice(([0], [1], [1], [0, 1], [1, 0]))}
            if size == 1 and rnd.random() < 0.7:
                call["form"] = "scalar"
            calls.append(call)
        out.append({"ev": "history", "calls": calls})
    return out


def memo_groups(rnd, count, length):
    """ histories with the real files """
    out = []
    for group in range(count):
        years = rnd.sample([1985.5, 1999.25, 2001.75, 2010.0, 2014.5, 2017.0, 2020.0, 2027.25], 3)
        years += [rnd.choice((1900.0, 2040.0)), rnd.choice((float("nan"), 2004.0, float("inf")))]
        places = [[rnd.choice((90, -90, 0, rnd.randint(-89, 89), rnd.uniform(-89, 89))), float(rnd.randint(-179, 180)),
                   rnd.choice((6371.2, 6378.137 - 999.0, 6800.0, rnd.uniform(6360, 8000)))] for _ in range(4)]
        points = [[*p, t] for p in places for t in years]
        rnd.shuffle(points)
        points = points[:14]
        names = rnd.sample(["2015", "2020", "2025", "2030"], 2)
        calls = []
        for k in range(length):
            form = "scalar" if k % 5 == 0 else rnd.choice(("array", "array", "turn", "back"))
            size = 1 if form == "scalar" else rnd.choice((1, 2, 5, 9))
            calls.append([form, rnd.choice(names), rnd.randrange(2), [rnd.randrange(len(points)) for _ in range(size)]])
        out.append({"ev": "memo", "group": group, "points": points, "calls": calls})
    return out


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("QdState", check.pick(None, "QdStateDeep"), env={"OUT": exported},
                              heap="3g", workers=check.pick(2, 4))
    together, threads = parallel.start(check)
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    histories = [json.loads(x) for x in sorted(common.read_ndjson(exported))]
    histories = rnd.sample(histories, min(len(histories), check.pick(2500, 40000)))
    scens = from_design(rnd, histories) + random_histories(rnd, check.pick(500, 6000))
    observations = common.run_workers(root, "qd", scens)
    groups = memo_groups(rnd, check.pick(40, 300), check.pick(30, 60))
    memos = common.run_workers(root, "qd", groups, name="memo")
    check.add_design(common.finish_tlc(threads))
    parts = parallel.groups(rnd, together, ["qd", "qd_base"], check.pick(40, 400))
    concurrent = common.run_workers(root, "parallel", parts, name="threads")
    check.phase("execute")
    lines, items = [], []
    for scen, obs in zip(scens, observations):
        if "crash" in obs:
            lines.append({"ev": "crash", "obs": obs})
            items.append(scen)
            continue
        for k, (call, res) in enumerate(zip(scen["calls"], obs["calls"])):
            line = {"ev": call["ev"], "obs": res}
            if call["ev"] == "refused":
                line["allnan"] = int(all(p["t"] == NAN_TIME for p in call["points"]))
            else:
                line["file"] = {"epochs": call["file"]["epochs"], "mats": call["file"]["mats"]}
                line["base"] = max(call["calls"])
                line["points"] = [{key: p[key] for key in ("lat", "lon", "rho", "t")} for p in call["points"]]
            lines.append(line)
            items.append({"history": scen["calls"][:k + 1]})
    bad, _, counts, runs = common.validate("TraceQd", lines, shards=6)
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": items[idx], "observed": lines[idx]["obs"]})
    records, owner = [], []
    for group, obs in zip(groups, memos):
        found = obs.get("records", [{"group": group["group"], "crash": obs.get("crash")}])
        records.extend(found)
        owner.extend([group]*len(found))
    found, owners = parallel.records(parts, concurrent)
    records, owner = records + found, owner + owners
    memo.validate(check, records, rtol=2e-6, atol=2e-6, detail=lambda i: owner[i])
    large.run(check, root, rnd, large.APEX)
    check.phase("validate")


if __name__ == "__main__":
    common.main("C13", run)

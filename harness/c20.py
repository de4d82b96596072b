"""C20: position of the Sun. """
import json
import os
import random

import common
import large
import memo
import parallel

TRIPLES = [(0, 1, 1), (1, 0, 1), (-1, 0, 1)] + [
    (s*p, q, c) for a, b, c in ((3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25), (20, 21, 29), (12, 35, 37), (9, 40, 41),
                                (28, 45, 53), (11, 60, 61), (16, 63, 65), (33, 56, 65), (36, 77, 85), (13, 84, 85))
    for p, q in ((a, b), (b, a)) for s in (1, -1)]


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("SunWalk", cfg=check.pick("SunWalk", "SunWalkDeep"), env={"OUT": exported}, heap="3g", workers=3)
    together, threads = parallel.start(check)
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    walks = [json.loads(json.loads(x))["walk"] for x in sorted(set(open(exported)))]
    walks += [sum(rnd.sample(walks, 4), []) for _ in range(check.pick(200, 3000))]
    scens = []
    for walk in walks:
        other = any(kind == "other" for kind, _ in walk)
        # the original algorithm is valid since 2000-03-01
        day = rnd.choice((rnd.randint(210, 36000), rnd.randint(210, 12000))) if other else rnd.randint(-3650, 36000)
        scens.append({"ev": "walk", "walk": walk, "day": day, "quarters": rnd.choice((0, 48, rnd.randint(0, 95))),
                      "dtt": rnd.choice((0.0, 64.5, -30.25, 70.0)), "lon": rnd.choice((0, 180, -180, rnd.randint(-360, 360))),
                      "rad": rnd.choice((6371, 6371, 7000, 42164, 100000)), "places": rnd.sample(TRIPLES, 4),
                      "seed": rnd.randrange(2**31)})
    for k in range(check.pick(40, 400)):
        scens.append({"ev": "overhead", "other": k % 2, "times": [rnd.uniform(210, 36000) for _ in range(40)],
                      "rad": rnd.choice((0.0, 6371.2))})
    def graded(*specials):
        return rnd.choice(specials) + rnd.choice((0, 1, -1))*10**rnd.uniform(-6, 0.5)
    for k in range(check.pick(120, 1500)):
        kind = rnd.choice(("below", "opposite", "polar", "side"))
        places = {"below": lambda: [graded(0.0), graded(0.0)], "opposite": lambda: [graded(0.0), graded(0.0)],
                  "polar": lambda: [graded(90.0, -90.0, 0.0), rnd.uniform(-180, 180)],
                  "side": lambda: [rnd.uniform(-90, 90), graded(0.0, 90.0, -90.0, 180.0)]}[kind]
        spots = [places() for _ in range(10)]
        scens.append({"ev": "gaze", "other": rnd.randrange(2), "kind": kind, "times": [rnd.uniform(210, 36000) for _ in spots],
                      "lat": [lat for lat, _ in spots], "lon": [lon for _, lon in spots]})
    for k in range(check.pick(40, 400)):
        scens.append({"ev": "clock", "other": k % 2, "times": [rnd.uniform(210, 36000) for _ in range(20)],
                      "dtt": [rnd.choice((0.0, 0.5, 0.999, -0.25, 64.184, rnd.uniform(-100, 100))) for _ in range(20)]})
    for k in range(check.pick(150, 2000)):
        scens.append({"ev": "refraction", "args": [rnd.uniform(210, 36000), rnd.uniform(-90, 90), rnd.uniform(-180, 180)]})
    observations = common.run_workers(root, "sky", scens)
    check.add_design(common.finish_tlc(threads))
    parts = parallel.groups(rnd, together, ["sunpos", "sunpos_original"], check.pick(30, 300))
    concurrent = common.run_workers(root, "parallel", parts, name="threads")
    check.phase("execute")
    trace, owner = [], []
    for i, obs in enumerate(observations):
        lines = [{"ev": "crash", "obs": obs}] if "crash" in obs else obs["lines"]
        trace += lines
        owner += [i]*len(lines)
    bad, _, counts, runs = common.validate("TraceSky", trace, shards=6)
    check.add_trace(trace, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[owner[idx]], "line": trace[idx]})
    records, owner = parallel.records(parts, concurrent)
    memo.validate(check, records, detail=lambda i: owner[i], name="threads", nans=False)
    large.run(check, root, rnd, large.SKY)
    check.phase("validate")


if __name__ == "__main__":
    common.main("C20", run)

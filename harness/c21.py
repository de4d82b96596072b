"""C21: blocks of the spherical harmonic evaluation. """
import json
import os
import random

import common
import large
from c20 import TRIPLES

LON_TRIPLES = TRIPLES + [(0, -1, 1)] + [(s, -c, h) for s, c, h in TRIPLES if c not in (0, h)]
BLOCKS = ("coef", "lp", "ldp", "rrp", "lcs")


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("LegendreWalk", cfg=check.pick("LegendreWalk", "LegendreWalkDeep"), env={"OUT": exported}, heap="3g", workers=3)
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    scens = []

    def legendre(degree, **kw):
        scens.append({"ev": "legendre", "degree": degree, "kind": rnd.randrange(4), **kw})
    for text in sorted(set(open(exported))):
        scen = json.loads(json.loads(text))
        legendre(scen["degree"], tri=scen["angle"])
    # degrees around the switch of the algorithm and above
    for degree in (15, 16, 17, 18, 20, 24, 40) + check.pick((), (30, 55, 70, 100, 133, 200, 300)):
        for tri in rnd.sample(TRIPLES[3:], check.pick(2, 12)) + TRIPLES[:3]:
            legendre(degree, tri=tri)
    for degree in (rnd.choice((64, 90, 100)), 133, rnd.choice((170, 200, 256))):
        legendre(degree, tri=rnd.choice(TRIPLES[3:]))
    for k in range(check.pick(6, 60)):
        degree = (790, 1100, 1500, 360, 720, rnd.randint(300, 2190))[k % 6]
        scens.append({"ev": "rows", "degree": degree, "kind": rnd.randrange(4), "lat": rnd.choice((0.0, rnd.uniform(-89, 89), rnd.uniform(80, 89), -60.0)),
                      "rows": sorted({1, rnd.randint(2, degree), rnd.randint(degree//2, degree), degree - 1, degree})})
    for k in range(check.pick(30, 1000)):
        legendre(rnd.choice((1, 2, 3, 5, 12, 16, 17, 25)), lat=rnd.uniform(-90, 90))
    for k in range(check.pick(40, 1000)):
        legendre(rnd.choice((1, 2, 5, 13, 16, 17, 25)), lat=rnd.choice((-1, 1))*(90 - 10.0**-rnd.uniform(0, 13)))
    def graded(*specials):
        return rnd.choice(specials) + rnd.choice((1, -1))*10.0**rnd.uniform(-8, 0.5)
    for k in range(check.pick(60, 1500)):
        legendre(rnd.choice((1, 2, 5, 13, 16, 17, 25)), lat=min(90.0, max(-90.0, graded(0.0, 0.0, 45.0, -30.0, 90.0, -90.0))))
    for k in range(check.pick(60, 1500)):
        scens.append({"ev": "loncossin", "degree": rnd.choice((1, 2, 3, 8, 20)), "kind": rnd.randrange(4), "turns": rnd.choice((0, 0, 1, -1)),
                      "lon": graded(0.0, 90.0, -90.0, 180.0, -180.0, 45.0)})
    for k in range(check.pick(60, 1500)):
        scens.append({"ev": "nearpower", "degree": rnd.choice((1, 2, 3, 7, 40, 90)), "kind": rnd.randrange(4), "internal": rnd.randrange(2),
                      "step": rnd.choice((1, -1))*10.0**rnd.uniform(-8, -4), "reference": rnd.choice((6371.2, 6371.2, 1.0, 3480.0)), "default": rnd.randrange(2)})
    for k in range(check.pick(60, 3000)):
        kw = {"tri": rnd.choice(LON_TRIPLES)} if k % 3 else {"lon": rnd.uniform(-180, 180)}
        scens.append({"ev": "loncossin", "degree": rnd.choice((0, 1, 2, 3, 8, 20, 60, 140, 260) + check.pick((), (200, 500))), "kind": rnd.randrange(4),
                      "turns": rnd.choice((0, 0, 1, -1, 3)), **kw})
    for k in range(check.pick(100, 5000)):
        scens.append({"ev": "relradpow", "degree": rnd.choice((0, 1, 2, 3, 7, 40, 90, 140, 260)), "kind": rnd.randrange(4),
                      "ratio": [rnd.randint(1, 19), rnd.randint(1, 19)], "internal": rnd.randrange(2),
                      "reference": rnd.choice((6371.2, 6371.2, 1.0, 3480.0)), "default": rnd.randrange(2)})
    for degree in (0, 1, 2, 9):
        for internal in (0, 1):
            scens.append({"ev": "radius0", "degree": degree, "internal": internal})
    for k in range(check.pick(200, 15000)):
        scens.append({"ev": "fourier", "one": rnd.choice(LON_TRIPLES), "two": rnd.choice(LON_TRIPLES),
                      "shape": [rnd.choice((1, 2, 3, 5, 8)), rnd.choice((1, 2, 3, 5, 8))], "least": [rnd.randint(-9, 4), rnd.randint(-9, 4)],
                      "stack": rnd.choice(((), (), (3,), (2, 2))), "times": rnd.choice(((), (), (2,), (2, 3))), "seed": rnd.randrange(2**31)})
    for k in range(check.pick(400, 25000)):
        lead = rnd.choice(((), (), (2,), (2, 3)))
        full = [b for b in BLOCKS if rnd.random() < 0.6] if lead else []
        scens.append({"ev": "sums", "degree": rnd.choice((0, 1, 2, 3, 4, 6)), "pole": rnd.choice((0, 0, 1, -1)), "internal": rnd.randrange(2),
                      "excess": [b for b in BLOCKS if rnd.random() < 0.4] if k % 2 else [], "odd": [b for b in ("coef", "lp", "ldp") if rnd.random() < 0.3],
                      "lead": lead, "full": full, "lat": rnd.choice((0.0, 60.0, -60.0, 45.0, -30.0, 89.0, 12.3)),
                      "limit": rnd.choice((None, None, -1, 0, 1, 2, 4, 9)), "seed": rnd.randrange(2**31)})
    # the sizes are limited by the least array
    for s in scens:
        if s["ev"] == "sums" and len(s["excess"]) == 5:
            s["excess"].pop()
    for k in range(check.pick(60, 3000)):
        scens.append({"ev": "compose", "degree": rnd.choice((1, 2, 5, 12, 16, 17, 30, 60, 133)), "internal": rnd.randrange(2),
                      "limit": rnd.choice((-1, -1, 1, 3, 16, 17, 50, 120)), "full": rnd.randrange(2), "seed": rnd.randrange(2**31)})
    for k in range(check.pick(60, 3000)):
        scens.append({"ev": "approach", "degree": rnd.choice((1, 2, 5, 13, 16, 17, 25)), "pole": rnd.choice((1, -1)), "lon": rnd.uniform(-180, 180),
                      "whole": rnd.randrange(2), "steps": list(range(1, 14)), "factor": rnd.uniform(1, 9.9), "seed": rnd.randrange(2**31)})
    for kind in ("sheval", "sheval_dipole", "shevaltemp", "sheval2dfs"):
        for mode in (1, 2, 3):
            for cout in range(3):
                for k in range(check.pick(5, 60)):
                    scens.append({"ev": "factor", "kind": kind, "mode": mode, "cout": cout, "cin": rnd.randrange(3), "count": rnd.choice((1, 3)),
                                  "degree": rnd.choice((1, 2, 5)), "internal": rnd.randrange(2), "seed": rnd.randrange(2**31),
                                  "sp": rnd.choice((None, 2, -3, 0)) if k else None,
                                  "sg": rnd.choice((None, [2], [-1], [1, 2, -3], [0, 5, 1], [-4, -4, 0])) if k else None})
    observations = common.run_workers(root, "blocks", scens)
    check.phase("execute")
    trace, owner = [], []
    for i, obs in enumerate(observations):
        lines = [{"ev": "crash", "obs": obs}] if "crash" in obs else obs["lines"]
        trace += lines
        owner += [i]*len(lines)
    order = list(range(len(trace)))
    rnd.shuffle(order)
    bad, _, counts, runs = common.validate("TraceBlocks", trace, shards=[order[k::6] for k in range(6)], stack="256m")
    check.add_trace(trace, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[owner[idx]], "line": trace[idx]})
    large.run(check, root, rnd, large.BLOCKS)
    check.phase("validate")


if __name__ == "__main__":
    common.main("C21", run)

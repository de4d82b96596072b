"""C05: interval algebra of the validity ranges. """
import itertools
import json
import os
import random

import common
import gen_coeffs as g
from c03 import report

N, P = g.NINF, g.PINF


def random_intervals(rnd, kmax=6):
    style = rnd.random()
    count = rnd.randint(1, kmax)
    if style < 0.5:  # chain with possible overlaps and gaps
        cuts = sorted(rnd.sample(range(-4, 21), count + 1))
        ivs = []
        for a, b in zip(cuts, cuts[1:]):
            ivs.append([a + rnd.choice((0, 0, 0, 0, -1, -3, 1)) if a > -3 else a, b])
        ivs = [iv for iv in ivs if iv[0] <= iv[1]]
    else:
        ivs = []
        for _ in range(count):
            lo = rnd.randint(-4, 19)
            ivs.append([lo, min(20, lo + rnd.choice((0, 1, 2, 5, 8, 15, 24)))])
    if rnd.random() < 0.3:
        rnd.choice(ivs)[0] = N
    if rnd.random() < 0.3:
        rnd.choice(ivs)[1] = P
    rnd.shuffle(ivs)
    return ivs


def touching(ivs):
    return all(a[1] == b[0] for a, b in zip(ivs, ivs[1:]))


def run(check):
    build = common.start_build()
    outs = []
    handles = []
    for name, deep in (("Composer", "ComposerDeep"), ("Intersector", "IntersectorDeep")):
        outs.append(os.path.join(common.scratch(), name + ".ndjson"))
        open(outs[-1], "w").close()
        handles.append(common.start_tlc(
            name, check.pick(None, deep), env={"OUT": outs[-1]}))
    rnd = random.Random(check.seed)
    times = list(range(-4, 21))
    items = []
    for _ in range(check.pick(1500, 20000)):
        ivs = random_intervals(rnd)
        kind = rnd.choice(("history", "compose", "compose", "combine"))
        items.append({"ev": kind, "ivs": ivs, "times": times})
    for _ in range(100):
        items.append({"ev": "primary", "times": times,
                      "ivs": [rnd.choice(random_intervals(rnd)) for _ in "ab"]})
    for handle in handles:
        check.add_design(common.finish_tlc(handle))
    check.phase("design")
    for line in common.read_ndjson(outs[0]):
        ivs = json.loads(line)
        for kind in ("compose", rnd.choice(("combine", "history"))):
            items.append({"ev": kind, "ivs": ivs, "times": list(range(-3, 9))})
    # gapless lists of the two-list merge: combinations of compositions
    pairs = [json.loads(line) for line in common.read_ndjson(outs[1])]
    pairs = [p for p in pairs if touching(p[0]) and touching(p[1])]
    rnd.shuffle(pairs)
    gen = g.Gen(check.seed, kinds=("const", "c1"))
    scens = []
    for a, b in pairs[:check.pick(400, 8000)]:
        rnd.shuffle(a)
        rnd.shuffle(b)
        scens.append(g.wrap(
            {"op": "combined", "parts": [
                g.composed_from(a, gen), g.composed_from(b, gen)]},
            rnd, times=range(-2, 9)))
    for line in common.read_ndjson(outs[0]):
        items.append({"ev": "resolve", "ivs": json.loads(line), "times": list(range(-3, 9))})
    for _ in range(check.pick(800, 10000)):
        items.append({"ev": "resolve", "ivs": random_intervals(rnd), "times": times})
    root = common.finish_build(build)
    for line in common.read_ndjson(outs[1])[::check.pick(3, 1)]:
        items.append({"ev": "merge", "ivs": json.loads(line), "times": list(range(-3, 9))})
    check.phase("build")
    observations = common.run_workers(root, "intervals", items, name="iv")
    lines, owner = [], []
    for idx, obs in enumerate(observations):
        for event in obs.get("events", [{"crash": obs.get("crash")}]):
            lines.append(event)
            owner.append(idx)
    shards = [[] for _ in range(4)]
    for i, k in enumerate(owner):
        shards[k % 4].append(i)
    check.phase("execute")
    bad, _, counts, runs = common.validate("TraceIntervals", lines, shards=shards, name="ivt")
    check.phase("validate")
    for kind, clauses in (("merge", ("merge_sound", "merge_complete")),
                          ("resolve", ("resolve_apart", "resolve_first"))):
        if not any(line.get("ev") == kind for line in lines):
            for clause in clauses:      # the code has no such function
                counts.pop(clause)
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": items[owner[idx]], "obs": lines[idx]})
    report(check, root, scens, vacuous=("refused",))


if __name__ == "__main__":
    common.main("C05", run)

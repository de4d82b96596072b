"""C07: degree limits and addressing of the terms. """
import json
import os
import random

import common

CLASSES = ("const", "c1", "dy1", "ext", "composed", "combined", "dipole", "mio_int",
           "mio_ext", "primary_below", "primary_above", "cgm", "sheval", "sheval_rep")
DIPOLES = ("dipole", "mio_int", "mio_ext", "primary_below", "primary_above")


def item_of(rnd, cls, terms, lims):
    small = cls in DIPOLES
    vals = [rnd.choice((-1, 1))*rnd.randint(1, 200 if small else 5000) for _ in terms]
    if cls.startswith("sheval"):     # the only limit is the maximum degree
        lims = sorted({(-1, hi) for _, hi in lims})
    top = max(n for n, _ in terms)
    partitions = []
    for _ in range(2):
        lo, hi = rnd.choice(((-1, -1), (-1, top), (1, top), (rnd.randint(0, top), top + 2)))
        inner = [n for n in range(max(lo, 0), top)]
        cuts = sorted(rnd.sample(inner, min(len(inner), rnd.choice((1, 1, 2, 3)))))
        partitions.append([[lo, hi], cuts])
    other = sorted({(rnd.randint(1, 6), 0) for _ in range(3)})
    return {
        "cls": cls, "terms": terms, "vals": vals, "lims": [list(x) for x in lims],
        "partitions": partitions, "seed": rnd.randrange(1 << 30),
        "groups": [rnd.randrange(3) for _ in terms], "other": other,
        "inner": rnd.choice(("const", "c1")), "array": rnd.random() < 0.5,
        "extent": rnd.choice(([0, 0, 0, 0], [-1, 2, -2, 1], [-1, 3, 0, 2])),
    }


def terms_of(rnd, degrees, full=0.5):
    terms = []
    for n in degrees:
        if rnd.random() < full:
            ms = list(range(-n, n + 1))
        else:
            ms = rnd.sample(range(-n, n + 1), rnd.randint(1, min(4, 2*n + 1)))
        terms += [[n, m] for m in ms]
    if rnd.random() < 0.6:
        rnd.shuffle(terms)
    return terms


def random_lims(rnd, top):
    lims = [(-1, -1)]
    for _ in range(5):
        lo, hi = rnd.randint(-1, top + 1), rnd.randint(-1, top + 2)
        lims.append((lo, hi))
    lims.append((rnd.randint(0, top),)*2)
    return lims


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc(
        "Subset", check.pick(None, "SubsetDeep"), env={"OUT": exported})
    rnd = random.Random(check.seed)
    scens = []
    for _ in range(check.pick(450, 6000)):
        cls = rnd.choice(CLASSES)
        top = rnd.choice((1, 2, 3, 4, 5, 8, 13) + (() if cls in DIPOLES else (20,)))
        low = rnd.choice((1, 1, 1, rnd.randint(1, top)))
        degrees = [n for n in range(low, top + 1) if rnd.random() < 0.85] or [top]
        scens.append(item_of(rnd, cls, terms_of(rnd, degrees, 0.4),
                             random_lims(rnd, top)))
    for top in check.pick((30, 60), (30, 60, 100, 120)):     # every term of high degrees
        for cls in ("const", "combined", "mio_int"):
            terms = terms_of(rnd, range(1, top + 1), 1.0)
            item = item_of(rnd, cls, terms, [(-1, -1), (top//2, -1), (2, top - 1)])
            item["vals"] = [v // 50 or 1 for v in item["vals"]]
            scens.append(item)
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    byset = {}
    for line in common.read_ndjson(exported):
        data = json.loads(line)
        byset.setdefault(tuple(data["degs"]), []).append(tuple(data["lim"]))
    for degs, lims in sorted(byset.items()):
        for cls in CLASSES if check.thorough else rnd.sample(CLASSES, 5):
            scens.append(item_of(rnd, cls, terms_of(rnd, degs), sorted(lims)))
    root = common.finish_build(build)
    check.phase("build")
    observations = common.run_workers(root, "degrees", scens)
    check.phase("execute")
    lines = [{**{k: s[k] for k in ("cls", "terms", "vals", "lims")}, "obs": o}
             for s, o in zip(scens, observations)]
    shards = [list(range(i, len(lines), 6)) for i in range(6)]
    bad, _, counts, runs = common.validate("TraceDegrees", lines, shards=shards)
    check.phase("validate")
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "obs": observations[idx]})


if __name__ == "__main__":
    common.main("C07", run)

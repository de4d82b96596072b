"""C18: merged files of the magnetospheric products. """
import json
import os
import random

import common

UNIT = 1680
NAMES = [[[1, 0]], [[2, 0]], [[1, 0], [1, 1], [1, -1]], [[1, 1], [1, 0], [1, -1]], [[2, 0], [2, 1], [2, -1], [1, 0]],
         [[n, m] for n in (1, 2, 3) for m in range(-n, n + 1)], [[3, -3], [2, 2]], [[1, 0], [1, -1], [1, 1]]]
LOADERS = [("2c", "", "internal"), ("2c", "", "external")] + [
    ("2f", frame, kind) for frame in ("geo", "sm") for kind in ("internal", "external")]


def values(rnd, product):
    # neighbours differ
    return [[rnd.randint(-90, 90) for _ in product["nm"]] for _ in product["t"]]


def times(rnd, start, count):
    out = [start]
    while len(out) < count:
        out.append(out[-1] + rnd.choice((1, 1, 1, 2, 3, 5, 6, 7, 8)))
    return out


def cut(rnd, t, names, count):
    """ series cut to products """
    places = sorted(rnd.sample(range(1, len(t)), min(count, len(t)) - 1))
    return [{"nm": names, "t": t[a:b]} for a, b in zip([0] + places, places + [len(t)])]


def spoil(rnd, products):
    """ a small change of the products """
    how = rnd.choice(("swap", "overlap", "share", "names", "order", "repeat", "touch"))
    k = rnd.randrange(len(products))
    if how == "swap" and len(products) > 1:
        i, j = rnd.sample(range(len(products)), 2)
        products[i], products[j] = products[j], products[i]
    elif how == "overlap" and k:
        shift = rnd.randint(1, 4)
        products[k] = {**products[k], "t": [products[k - 1]["t"][-1] - shift] + products[k]["t"]}
    elif how in ("share", "touch") and k:
        products[k] = {**products[k], "t": [products[k - 1]["t"][-1]] + products[k]["t"]}
    elif how == "names":
        products[k] = {**products[k], "nm": rnd.choice(NAMES)}
    elif how == "order" and len(products[k]["nm"]) > 1:
        names = list(products[k]["nm"])
        rnd.shuffle(names)
        products[k] = {**products[k], "nm": names}
    elif how == "repeat":
        products.insert(k, products[k])
    return products


def scenario(rnd, sets, loader, fault=""):
    fmt, frame, kind = loader
    sets = [[{**p, "v": values(rnd, p)} for p in products] for products in sets]
    marks = sorted({t for products in sets for p in products for t in p["t"]})
    start = max(min(min(p["t"]) for p in products) for products in sets)
    end = min(max(max(p["t"]) for p in products) for products in sets)
    probes = [2*t for t in marks] + [x for a, b in zip(marks, marks[1:]) for x in (a + b, 2*a + 1, 2*b - 1)]
    probes = sorted({x for x in probes if 2*start <= x <= 2*end})
    if len(probes) > 30:
        probes = sorted(rnd.sample(probes, 30))
    return {"format": fmt, "frame": frame, "kind": kind, "sets": sets, "unit": UNIT, "probes": probes,
            "fault": fault, "which": rnd.randrange(len(sets[0])), "bad": int(fault != ""),
            "day": rnd.choice((0, 6179, rnd.randint(4900, 9000), -3000)),
            "step": rnd.choice((5400000, 3600000, 60000, 86400000, 21600000)), "nested": rnd.randint(0, 1),
            "pole": rnd.choice((None, None, [rnd.uniform(70, 89), rnd.uniform(-180, 180)])),
            "seed": rnd.randrange(2**31)}


def series(rnd, files):
    names = rnd.choice(NAMES)
    count = rnd.choice((files, files + 2, 3*files, rnd.randint(files, 12*files)))
    if rnd.random() < 0.01:     # many samples
        count = max(count, rnd.randint(150, 500))
    products = cut(rnd, times(rnd, rnd.randint(0, 5), count), names, files)
    if rnd.random() < 0.35:
        products = spoil(rnd, products)
    return products


def generate(rnd, size):
    out = []
    while len(out) < size:
        loader = rnd.choice(LOADERS)
        files = rnd.choice((1, 2, 2, 3, 3, 4, 6))
        if len(out) % 100 == 50:    # many products
            files = rnd.choice((11, 13, 24, 40))
        sets = [series(rnd, files)]
        if loader[0] == "2c":
            other = series(rnd, files)
            if rnd.random() < 0.3:
                other = [{**p, "nm": other[0]["nm"]} for p in sets[0]]
            sets.append(other)
            if len(sets[0]) != len(sets[1]):
                continue
        gaps = [b - a for s in sets for t in [sorted({t for p in s for t in p["t"]})] for a, b in zip(t, t[1:])]
        if any(g > 8 for g in gaps):
            continue
        out.append(scenario(rnd, sets, loader, rnd.choice(("gone", "text", "lost", "clock")) if rnd.random() < 0.08 else ""))
    return out


def replay(rnd, products):
    """ products of the design model """
    names = rnd.sample(NAMES, 2)
    loader = rnd.choice(LOADERS)
    sets = [[{"nm": names[p["nm"][0][0] - 1], "t": p["t"]} for p in products]]
    if loader[0] == "2c":
        count = len(products)
        other = cut(rnd, list(range(0, 7 + count)), rnd.choice(NAMES), count)
        sets.insert(rnd.randint(0, 1), other)
    return scenario(rnd, sets, loader)


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("MergeWalk", cfg=check.pick("MergeWalk", "MergeWalkDeep"),
                              env={"OUT": exported}, heap="3g", workers=4)
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    products = [json.loads(x) for x in common.read_ndjson(exported)]
    if len(products) > 20000:
        products = rnd.sample(products, 20000)
    scens = [replay(rnd, p) for p in products] + generate(rnd, check.pick(2500, 20000))
    observations = common.run_workers(root, "merge", scens)
    check.phase("execute")
    trace = [{"sets": s["sets"], "unit": s["unit"], "kind": s["kind"], "bad": s["bad"], "obs": o}
             for s, o in zip(scens, observations)]
    bad, _, counts, runs = common.validate("TraceMerge", trace, shards=7)
    check.add_trace(trace, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "observed": observations[idx]})
    check.phase("validate")


if __name__ == "__main__":
    common.main("C18", run)

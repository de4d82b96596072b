"""C02: NaN exactly outside of the validity. """
import os
import random

import common
import gen_coeffs as g


def leaf_ends(tree):
    if tree["op"] == "leaf":
        return {tree["lo"], tree["hi"]}
    return set().union(*(leaf_ends(x) for x in tree["parts"]))


def buildable_tree(gen):
    """ trees surely without gaps: chains and combinations """
    rnd = gen.rnd
    kind = rnd.random()
    if kind < 0.35:
        return gen.leaf(gen.interval(0.3))
    if kind < 0.7:
        cuts = sorted(rnd.sample(range(-3, 20), rnd.randint(3, 5)))
        ivs = [[a, b + rnd.choice((0, 0, 1))] for a, b in zip(cuts, cuts[1:])]
        if rnd.random() < 0.3:
            ivs[0][0] = g.NINF
        if rnd.random() < 0.3:
            ivs[-1][1] = g.PINF
        rnd.shuffle(ivs)
        return g.composed_from(ivs, gen)
    return {"op": "combined", "parts": [
        gen.leaf(gen.interval(0.5)) for _ in range(rnd.randint(2, 3))]}


def scenario(gen):
    rnd = gen.rnd
    cls = rnd.choice(("sh", "sh", "dipole", "cgm", "mio", "primary"))
    gen.internal = rnd.random() < 0.7
    if cls in ("sh", "dipole"):
        trees = [buildable_tree(gen)]
    elif cls == "cgm":
        trees = [buildable_tree(gen) for _ in range(rnd.randint(1, 3))]
    else:
        trees = [gen.leaf(gen.interval(0.3), "const")
                 for _ in range(2 if cls == "primary" else 1)]
    if cls == "primary":  # both layers share the validity
        trees[1]["lo"], trees[1]["hi"] = trees[0]["lo"], trees[0]["hi"]
    ends = set()
    for tree in trees:
        ends |= leaf_ends(tree)
    ends = [x for x in sorted(ends) if g.NINF < x < g.PINF] or [0]
    ends = rnd.sample(ends, min(4, len(ends)))
    times = [[k, e] for k in ends for e in (-1, 0, 1)]
    times += [[rnd.randint(-4, 20), 0] for _ in range(2)]
    if rnd.random() < 0.6:
        times.append([0, 9])
    rnd.shuffle(times)
    return {
        "model": {"cls": cls, "trees": trees}, "times": times,
        "radius": rnd.choice((6371.2, 6400.0, 6481.2, 7000.0)),
        "opts": rnd.choice(({}, {}, {"f107": 80.0})) if cls in ("mio", "primary")
                else rnd.choice(({}, {}, {"max_degree": 1}, {"scale": 2.0},
                                 {"output_coordinate_system": 2},
                                 {"input_coordinate_system": 1})),
    }


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc(
        "Composer", check.pick(None, "ComposerDeep"), env={"OUT": exported})
    gen = g.Gen(check.seed, kinds=("const", "c0", "c1", "dy1", "dy0"))
    scens = [scenario(gen) for _ in range(check.pick(1500, 25000))]
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    root = common.finish_build(build)
    check.phase("build")
    observations = common.run_workers(root, "validity", scens)
    check.phase("execute")
    lines = [{"model": s["model"], "times": s["times"], "obs": o}
             for s, o in zip(scens, observations)]
    bad, _, counts, runs = common.validate("TraceValidity", lines, shards=5)
    check.phase("validate")
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "obs": observations[idx]})


if __name__ == "__main__":
    common.main("C02", run)

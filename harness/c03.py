"""C03: the first matching set of a composition. """
import json
import os
import random

import common
import gen_coeffs as g


def scenarios_from_design(path, gen):
    out = []
    for ivs in common.read_ndjson(path):
        tree = g.composed_from(json.loads(ivs), gen)
        out.append(g.wrap(tree, gen.rnd, times=range(-3, 9)))
    return out


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc(
        "Composer", check.pick(None, "ComposerDeep"), env={"OUT": exported})
    rnd = random.Random(check.seed)
    gen = g.Gen(check.seed)
    scens = []
    while len(scens) < check.pick(700, 12000):
        if rnd.random() < 0.25:
            tree = g.random_combined(gen)
            if "composed" not in json.dumps(tree):
                continue
        else:
            tree = g.random_composed(gen)
        if g.ends_ok(tree):
            scens.append(g.wrap(tree, rnd))
    run_ = common.finish_tlc(design)
    check.add_design(run_)
    check.phase("design")
    scens = scenarios_from_design(exported, gen) + scens
    root = common.finish_build(build)
    check.phase("build")
    report(check, root, scens)


def report(check, root, scens, vacuous=()):
    observations = common.run_workers(root, "coeffs", scens)
    check.phase("execute")
    lines = [{"tree": s["tree"], "lim": s["lim"], "times": s["times"], "obs": o}
             for s, o in zip(scens, observations)]
    bad, _, counts, runs = common.validate(
        "TraceCoeffs", lines, shards=6)
    check.phase("validate")
    for clause in vacuous:    # not covered by the scenarios of this check
        counts.pop(clause, None)
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "obs": observations[idx]})


if __name__ == "__main__":
    common.main("C03", run)

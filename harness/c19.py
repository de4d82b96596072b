"""C19: inputs intact, results independent of the memory layout. """
import json
import os
import random

import common

FUNCTIONS = (
    "bisect interp fourier2d legendre loncossin relradpow spharpot sphargrd sheval sheval_scale sheval_dipole shevaltemp "
    "sheval2dfs convert vrot_sph2cart vrot_cart2sph vrot_sph2geod vrotate vnorm vincdecnorm convert_to_dipole "
    "vrot_from_dipole rotation sunpos sunpos_original mjd2000_to_decimal_year mjd2000_to_year_fraction "
    "decimal_year_to_mjd2000 mjd2000_to_decimal_year_simple mjd2000_to_year_fraction_simple decimal_year_to_mjd2000_simple "
    "eval_qdlatlon eval_qdlatlon_with_base_vectors eval_mlt eval_subsol mut mut_sun model "
    "dipole_model composed_model line mio_model primary_model coeff coeff_mio").split()
MODELS = ("model", "dipole_model", "composed_model", "line", "mio_model", "primary_model", "coeff", "coeff_mio")


def run(check):
    build = common.start_build()
    designs = []
    for spec, cfg in (("Layouts", check.pick("Layouts", "LayoutsDeep")), ("Sharing", check.pick("Sharing", "SharingDeep"))):
        exported = os.path.join(common.scratch(), spec + ".ndjson")
        open(exported, "w").close()
        designs.append((exported, common.start_tlc(spec, cfg=cfg, env={"OUT": exported}, heap="2g", workers=2)))
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    for _, design in designs:
        check.add_design(common.finish_tlc(design))
    check.phase("design")
    step, pad = check.pick((2, 1), (3, 2))
    layouts, histories = ([json.loads(json.loads(x)) for x in sorted(set(open(exported)))] for exported, _ in designs)
    layouts = [{**x, "sizes": [2*step + 2*pad, 3*step + 2*pad]} for x in layouts]
    scens = []
    for func in FUNCTIONS:
        for k in range(check.pick(120, 900) if func in MODELS else check.pick(60, 500)):
            scens.append({"func": func, "whole": k % 2, "seed": rnd.randrange(2**31),
                          "layouts": rnd.sample(layouts, 12), "history": rnd.choice(histories) + rnd.choice(
                              ([1, 2, 1], [2, 1, 2, 1], [1, 2, 2, 1, 1, 2], [0, 1, 2, 0, 2, 1, 0, 2]))})
    observations = common.run_workers(root, "layouts", scens)
    check.phase("execute")
    shards, trace, owner = [[] for _ in range(7)], [], []
    for i, obs in enumerate(observations):
        lines = [{"ev": "crash", "why": obs["crash"]}] if "crash" in obs else obs["lines"]
        part = [{"ev": "start"}] + [{k: v for k, v in line.items() if k != "error"} for line in lines]
        shards[i % 7] += range(len(trace), len(trace) + len(part))
        owner += [(i, None)] + [(i, k) for k in range(len(lines))]
        trace += part
    bad, _, counts, runs = common.validate("TraceHeap", trace, shards=shards)
    check.add_trace(trace, runs, counts)
    for idx, clauses in bad:
        number, k = owner[idx]
        obs = observations[number]
        scen = {k: v for k, v in scens[number].items() if k != "layouts"}
        check.violate(clauses, {"scenario": scen, "line": obs["lines"][k] if "lines" in obs else obs})
    check.phase("validate")


if __name__ == "__main__":
    common.main("C19", run)

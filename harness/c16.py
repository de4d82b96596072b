"""C16: SHC files. """
import json
import os
import random

import common
import gen_files

CLAUSES = {"refused", "accepted", "values", "mean", "step", "degree", "validity", "model", "header",
           "composed", "combined", "gap", "shc"}
NODES = [8*1999, 8*2000, 8*2001, 16012, 8*2002, 8*2003, 8*2006]


def several(rnd, size):
    out = []
    for _ in range(size):
        files, bounds = [], []
        mode = rnd.randint(0, 1)
        for k in range(rnd.choice((1, 2, 2, 3, 4))):
            file, _ = gen_files.shc(rnd, constant=True)
            head = [x for x in file if x and x[0] != gen_files.C][0]
            if bounds and rnd.random() < 0.75:
                start = rnd.choice((bounds[-1][1], bounds[-1][1], rnd.randint(*bounds[-1]), bounds[-1][0]))
                end = start + rnd.choice((8, 40, 100, 4))
                head[5:7] = [["r", start], ["r", end]]
            bounds.append([gen_files.units(head[5]), gen_files.units(head[6])])
            files.append(file)
        if rnd.random() < 0.5:
            order = list(range(len(files)))
            rnd.shuffle(order)
            files = [files[i] for i in order]
        if rnd.random() < 0.05:
            k = rnd.randrange(len(files))
            files[k] = gen_files.break_file(rnd, files[k])
        ends = sorted({x for b in bounds for x in b})
        probes = ends + [e + d for e in ends for d in (-1, 1)] + [(a + b)//2 for a, b in zip(ends, ends[1:])]
        if len(files) == 1:
            mode = 1
        # the same file once more
        again = {}
        if len(files) < 5 and rnd.random() < 0.2:
            k = rnd.randrange(len(files))
            again[len(files)] = k
            files.append(files[k])
        out.append({"ev": "several", "again": again, "files": files, "u": gen_files.U, "mode": mode,
                    "objects": rnd.choice(([], [], [0], [1], [0, 1])), "decimal": rnd.randint(0, 1),
                    "probes": probes, "seed": rnd.randrange(10**6)})
    return out


def strip(scen):
    return {k: v for k, v in scen.items() if k not in (
        "probes", "seed", "stream", "decimal", "objects", "again", "path", "q", "simple", "outer")}


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("FileMachine", cfg=check.pick("FileMachine_shc", "FileMachine_shcDeep"),
                              env={"OUT": exported}, heap="3g", workers=2)
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    scens = []
    for text in common.read_ndjson(exported):
        file = json.loads(text)
        scen = gen_files.scenario(rnd, "shc", file, NODES)
        scen["probes"] += [[8*2002, 8*2003], [8*2000, 8*2002]]
        scens.append(scen)
        if rnd.random() < 0.1:
            scens.append(dict(scen, ev="info"))
    if len(scens) > 40000:
        scens = rnd.sample(scens, 40000)
    scens += gen_files.generate(rnd, "shc", check.pick(2500, 25000))
    scens += [gen_files.long_shc(rnd) for _ in range(check.pick(6, 40))]
    scens += several(rnd, check.pick(1500, 15000))
    data = os.path.join(root, "eoxmagmod", "eoxmagmod", "data")
    # values of at most 4 decimals
    names = check.pick(["IGRF14", "IGRF13"], ["IGRF12", "IGRF13", "IGRF14", "SIFM"])
    for name in names:
        scens.append(gen_files.bundled(rnd, "shc", os.path.join(data, name + ".shc"), 10000))
    observations = common.run_workers(root, "files", scens)
    check.phase("execute")
    lines = [{**strip(scen), "obs": obs} for scen, obs in zip(scens, observations)]
    bad, _, counts, runs = common.validate("TraceFiles", lines, shards=7)
    check.add_trace(lines, runs, {k: v for k, v in counts.items() if k in CLAUSES})
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "observed": observations[idx]})
    check.phase("validate")


if __name__ == "__main__":
    common.main("C16", run)

"""C17: IGRF, WMM, EMM and MIO files. """
import json
import os
import random

import common
import gen_files
from c16 import strip

CLAUSES = {"refused", "accepted", "values", "mean", "degree", "validity", "model", "free",
           "mio", "aux", "igrf", "wmm", "emm"}
FORMATS = ("wmm", "igrf", "emm", "mio")


def run(check):
    build = common.start_build()
    designs = []
    for fmt in FORMATS:
        exported = os.path.join(common.scratch(), fmt + ".ndjson")
        open(exported, "w").close()
        designs.append((fmt, exported, common.start_tlc(
            "FileMachine", cfg="FileMachine_%s%s" % (fmt, check.pick("", "Deep")),
            env={"OUT": exported}, heap="3g", workers=2)))
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    scens = []
    for fmt, exported, design in designs:
        check.add_design(common.finish_tlc(design))
        lines = open(exported).readlines()
        # refused files of the same reason are many
        if len(lines) > check.pick(2500, 20000):
            lines = rnd.sample(lines, check.pick(2500, 20000))
        for text in lines:
            file = json.loads(json.loads(text))
            nodes = [8*2000, 8*2005] + ([8*2010] if fmt != "wmm" else [])
            scens.append(gen_files.scenario(rnd, fmt, file, nodes))
    check.phase("design")
    for fmt in FORMATS:
        scens += gen_files.generate(rnd, fmt, check.pick(1200, 15000))
    data = os.path.join(root, "eoxmagmod", "eoxmagmod", "data")
    scens.append(gen_files.bundled(rnd, "wmm", os.path.join(data, "WMM2015v2.COF"), 10000))
    scens.append(gen_files.bundled(rnd, "igrf", os.path.join(data, "igrf11coeffs.txt"), 10000))
    observations = common.run_workers(root, "files", scens)
    check.phase("execute")
    lines = [{**strip(scen), "obs": obs} for scen, obs in zip(scens, observations)]
    bad, _, counts, runs = common.validate("TraceFiles", lines, shards=7)
    check.add_trace(lines, runs, {k: v for k, v in counts.items() if k in CLAUSES})
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "observed": observations[idx]})
    check.phase("validate")


if __name__ == "__main__":
    common.main("C17", run)

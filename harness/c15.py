"""C15: field line tracing. """
import json
import os
import random

import common

MODELS = ["static1", "static2", "static4", "time1", "time3", "dipole1", "dipole3", "composed2",
          "composed4", "mio2", "external1", "external2", "igrf0"]


def lines(rnd, size):
    out = []
    for _ in range(size):
        what = rnd.choice(MODELS)
        steps = rnd.choice((0, 1, 2, 5, 12, 30, 80))
        options = {}
        if rnd.random() < 0.9:
            options["max_steps"] = steps
        if rnd.random() < 0.8:
            options["step"] = rnd.choice((100.0, 25.0, 300.0, 1000.0, 1, 64, rnd.uniform(5, 900)))
        alt = rnd.choice((0.0, 400.0, 2000.0, rnd.uniform(-100, 8000), rnd.uniform(0, 20000)))
        if rnd.random() < 0.6:
            options["min_radius"] = rnd.choice((6371.2, 6371, 6300.0, 6371.2 + rnd.uniform(-500, 1.2*alt)))
        if rnd.random() < 0.6:
            options["max_radius"] = rnd.choice((6378 + alt + rnd.uniform(-200, 5000), 12000.0, 7000,
                                                6378 + alt*rnd.uniform(0.8, 2)))
        if "max_steps" not in options and rnd.random() < 0.7:
            options["max_radius"] = 6500 + alt
        options = {k: options[k] for k in rnd.sample(sorted(options), len(options))}
        cin, cout = rnd.choice((0, 1, 2)), rnd.choice((0, 1, 2))
        form = rnd.choice(("array", "array", "list", "tuple", "float32") + (("int",) if cin == 2 else ()))
        model_options = {}
        if what.startswith("mio") or what.startswith("composed"):
            if rnd.random() < 0.6:
                model_options["f107"] = rnd.choice((90.0, 140.0))
            else:
                model_options["f107"] = 0.0
        if rnd.random() < 0.4 and not what.startswith("composed"):
            model_options["scale"] = rnd.choice((-1.0, 0.5, -2.0, [1.0, 1.0, -1.0], [0.5, 2.0, 1.0]))
        # scales of vectors are components of the Cartesian frame
        if rnd.random() < 0.2 and not what.startswith(("mio", "composed")):
            model_options["max_degree"] = 1
        out.append({
            "ev": "line", "what": what, "time": rnd.choice((4000.25, 4300.5, 4900.0)),
            "x": [rnd.choice((rnd.uniform(-89, 89), rnd.uniform(-89, 89), 0.0, 90.0, -89.9999)),
                  rnd.choice((rnd.uniform(-180, 180), 180.0, -180.0, 0.0)), alt],
            "cin": cin, "cout": cout, "form": form, "frames": rnd.randint(0, 1), "none": rnd.randint(0, 1),
            "options": options, "model_options": model_options})
    return out


def long_lines(rnd, size):
    """ many short steps """
    out = lines(rnd, size)
    for item in out:
        item["what"] = rnd.choice(("static1", "static2", "dipole1"))
        item["x"] = [rnd.uniform(-60, 60), rnd.uniform(-180, 180), rnd.uniform(2000, 9000)]
        item["options"] = {"max_steps": rnd.choice((501, 700, 1001, 1030, 1300)), "step": rnd.uniform(0.5, 2)}
        item["model_options"] = {}
    return out


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    depth = check.pick(2, 3)
    design = common.start_tlc("FieldWalk", cfg=check.pick("FieldWalk", "FieldWalkDeep"),
                              env={"OUT": exported}, heap="3g", workers=4)
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    walks = [json.loads(x) for x in common.read_ndjson(exported)]
    rnd.shuffle(walks)
    if check.tier == "thorough":
        walks = walks[:60000]
    scens = [{"ev": "levels", "depth": depth, "time": 0.0,
              "nudge": [rnd.choice((0, 0, 1, -1))*10**rnd.uniform(-15, -3) for _ in range(2)], "exact": rnd.choice((0, rnd.randint(1, 6))), "dir": [rnd.uniform(-1, 1), rnd.uniform(-1, 1), rnd.uniform(-1, 1)], **w} for w in walks]
    scens += lines(rnd, check.pick(900, 12000)) + long_lines(rnd, check.pick(12, 150))
    observations = common.run_workers(root, "lines", scens)
    check.phase("execute")
    trace = []
    for scen, obs in zip(scens, observations):
        if scen["ev"] == "levels":
            trace.append({"ev": "levels", "sign": scen["sign"], "depth": depth, "low": scen["low"],
                          "high": scen["high"], "steps": scen["steps"], "exact": int(scen["exact"] > 0), "obs": obs})
        else:
            trace.append({"ev": "line", "steps": scen["options"].get("max_steps", 500), "obs": obs})
    bad, _, counts, runs = common.validate("TraceLine", trace, shards=7)
    check.add_trace(trace, runs, counts)
    for idx, clauses in bad:
        obs = observations[idx]
        if len(str(obs)) > 3000:
            obs = str(obs)[:3000]
        check.violate(clauses, {"scenario": scens[idx], "observed": obs})
    check.phase("validate")


if __name__ == "__main__":
    common.main("C15", run)

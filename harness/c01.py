"""C01: array evaluation equals pointwise evaluation. """
import json
import os
import random

import common
import large
import memo
import parallel

GEODETIC, SPHERICAL, CARTESIAN = 0, 1, 2
FORMS = ("array", "array", "array", "matrix", "cube", "times", "places", "outer")


def configs(rnd, count):
    """ all functions, every combination of the frames and modes in turn """
    kinds = []
    for func, variants in (
            ("sheval", (None,)), ("sheval_coef", (None,)), ("sheval_dipole", (None,)),
            ("shevaltemp", ("linear", "const", "sets")), ("sheval2dfs", (None,)),
            ("model", ("static", "linear", "years", "composed", "mixed", "combined")),
            ("dipole", ("linear", "composed")), ("cgm", ("linear", "composed")),
            ("mio", (None,)), ("primary", (None,))):
        for variant in variants:
            kinds.append((func, variant))
    out = []
    for i in range(count):
        func, variant = kinds[i % len(kinds)]
        cfg = {"func": func, "variant": variant, "near": 10**rnd.uniform(-4, 2), "cin": rnd.randrange(3),
               "cout": rnd.randrange(3), "internal": rnd.random() < 0.6,
               "degree": rnd.choice((1, 2, 3, 3, 5, 8, 18, 30))}
        if func in ("sheval", "sheval_coef", "sheval_dipole", "shevaltemp", "sheval2dfs"):
            cfg["mode"] = rnd.choice((1, 2, 3))
        out.append(cfg)
    # the kernels in all frames and modes
    for func in ("sheval", "shevaltemp", "sheval2dfs"):
        for cin in range(3):
            for cout in range(3):
                for mode in (1, 2, 3):
                    out.append({"func": func, "variant": "linear", "cin": cin, "cout": cout,
                                "internal": rnd.random() < 0.6,
                                "near": 10**rnd.uniform(-4, 1), "degree": rnd.choice((3, 3, 3, 17)), "mode": mode})
    return out


MODELS = ["model_" + k for k in ("static", "linear", "years", "composed", "mixed", "combined")] + \
    ["dipole_linear", "dipole_mixed", "mio", "primary", "cgm"]
QUERIES = ["query_" + k for k in ("static", "linear", "years", "composed", "mixed", "combined")]
THREADED = ["sheval", "sheval_dipole", "shevaltemp", "sheval2dfs", "model_linear", "model_composed", "model_combined",
            "dipole_mixed", "mio", "primary", "cgm", "query_mixed", "query_years"]
LIMITS = [{"max_degree": 1}, {"max_degree": 2}, {"min_degree": 2}, {"min_degree": 2, "max_degree": 2}, {"min_degree": 3}]
SCALES = [{"scale": -2.0}, {"scale": 0.5}, {"scale": 3.0, "max_degree": 2}]
SUNS = [{"f107": 100.0}, {"f107": 0.0}, {"lat_sol": 10.0, "lon_sol": 50.0}, {"lat_sol": 10.0, "lon_sol": -120.0, "f107": 50.0}]
KERNEL = [{"mode": 1}, {"mode": 3}, {"is_internal": False}, {"scale_gradient": -2.0}, {"scale_gradient": [1.0, 2.0, 3.0]},
          {"mode": 3, "scale_potential": 3.0}]


def session_groups(rnd, exported, size, rounds):
    """ sessions of all kinds of objects with a choice of options and frames """
    sessions = [json.loads(line) for line in sorted(common.read_ndjson(exported))]
    kinds = [(k, LIMITS, LIMITS[::-1] + SCALES) for k in MODELS] + \
        [(k, SUNS, SUNS[::-1] + LIMITS + SCALES) for k in ("mio", "primary", "cgm")] + \
        [(k, LIMITS, LIMITS[::-1]) for k in QUERIES] + \
        [(k, KERNEL, KERNEL + [{"degree": 1}, {"degree": 2}]*(k in ("sheval", "sheval_dipole")))
         for k in ("sheval", "sheval_dipole", "shevaltemp", "sheval2dfs")]
    out = []
    for number in range(rounds):
        for part, (kind, first, second) in enumerate(kinds):
            options = [{}, rnd.choice(first), {}]
            while options[2] in options[:2]:
                options[2] = rnd.choice(second)
            frames = rnd.sample([[i, j] for i in range(3) for j in range(3)], 2)
            if rnd.random() < 0.4:      # the same output of different inputs and vice versa
                k = rnd.randrange(2)
                frames[1][k] = frames[0][k]
                frames[1][1 - k] = (frames[0][1 - k] + 1) % 3
            group = []
            for pair in rnd.sample(sessions, size):
                session = list(pair)
                for _ in range(rnd.choice((0, 0, 1, 2, 4))):
                    session.append(rnd.choice(rnd.choice(sessions)))
                group.append(session)
            # the first calls of new objects
            group += [[call] for call in sorted({json.dumps(c) for s in group for c in s})]
            group = [[json.loads(c) if isinstance(c, str) else c for c in s] for s in group]
            rnd.shuffle(group)
            out.append({"group": "%s-%d-%d" % (kind, part, number), "kind": kind, "frames": frames,
                        "options": options, "sessions": group})
    return out


def run(check):
    build = common.start_build()
    sessions = os.path.join(common.scratch(), "sessions.ndjson")
    open(sessions, "w").close()
    session_design = common.start_tlc("EvalSession", env={"OUT": sessions})
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("EvalCache", env={"OUT": exported})
    together, threads = parallel.start(check)
    rnd = random.Random(check.seed)
    cfgs = configs(rnd, check.pick(60, 200))
    scens = [{"cfg": cfg, "group": i, "calls": []} for i, cfg in enumerate(cfgs)]
    check.add_design(common.finish_tlc(design))
    sequences = [json.loads(line) for line in common.read_ndjson(exported)]
    rnd.shuffle(sequences)
    chosen = sequences[:check.pick(2500, len(sequences))]
    repeats = check.pick(1, 4)
    for k, seq in enumerate(chosen*repeats):
        scen = scens[(k*7 + k//len(scens)) % len(scens)]
        scen["calls"].append([rnd.choice(FORMS), seq])
    for scen in scens:
        calls = scen["calls"]
        for _ in range(check.pick(6, 40)):      # long mixed sequences
            length = rnd.choice((4, 6, 9, 14))
            seq = [[rnd.choice((0, 1, 0, 1, 2, 3, 4, 5)) for _ in range(5)]]
            while len(seq) < length:
                point = list(rnd.choice((seq[-1], seq[-1], rnd.choice(seq))))
                for _ in range(rnd.choice((0, 1, 1, 2, 5))):
                    point[rnd.randrange(5)] = rnd.choice((0, 1, 3, 4, 5, 2))
                seq.append(point)
            calls.append([rnd.choice(FORMS), seq])
        for _ in range(check.pick(4, 20)):      # steps between two close values of one argument
            seq = [[rnd.choice((0, 0, 3, 1, 4)) for _ in range(5)]]
            while len(seq) < 5:
                point = list(seq[-1])
                which = rnd.randrange(5)
                point[which] = 3 - point[which] if point[which] in (0, 3) else rnd.choice((0, 3))
                seq.append(point)
            calls.append([rnd.choice(FORMS), seq])
            calls.append(["single", seq])
        # isolated evaluations: every point of some of the calls
        for _, seq in rnd.sample(calls, min(len(calls), check.pick(14, 60))):
            calls.append(["single", seq])
        rnd.shuffle(calls)
    check.phase("design")
    root = common.finish_build(build)
    check.phase("build")
    observations = common.run_workers(root, "evals", scens)
    check.add_design(common.finish_tlc(session_design))
    groups = session_groups(rnd, sessions, check.pick(100, 900), check.pick(2, 6))
    lives = common.run_workers(root, "sessions", groups, name="sessions")
    check.add_design(common.finish_tlc(threads))
    parts = parallel.groups(rnd, together, THREADED, check.pick(8, 80))
    concurrent = common.run_workers(root, "parallel", parts, name="threads")
    check.phase("execute")
    records = []
    for scen, obs in zip(scens, observations):
        if "crash" in obs:
            records.append({"group": scen["group"], "crash": obs["crash"]})
            continue
        for record in obs["records"]:
            if "error" not in record:
                records.append({"group": scen["group"], **record})
    for scen, obs in zip(groups, lives):
        records += [{"group": scen["group"], **record}
                    for record in obs.get("records", [{"crash": obs.get("crash")}])]
    records += parallel.records(parts, concurrent)[0]
    found, owner = large.start(check, root, rnd, large.MODELS)
    longer = dict((scen["group"], scen) for scen in owner)
    records += found
    # tokens: single evaluations first
    cfg_of = {s["group"]: s["cfg"] for s in scens}
    cfg_of.update({g["group"]: {k: g[k] for k in ("kind", "options", "frames")} for g in groups})
    cfg_of.update({p["group"]: p for p in parts})
    cfg_of.update(longer)
    memo.validate(check, records,
                  detail=lambda i: cfg_of[records[i]["group"]])
    check.phase("validate")


if __name__ == "__main__":
    common.main("C01", run)

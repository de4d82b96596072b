"""C22: bad arguments are refused and leave the process intact. """
import json
import os
import random

import common

SHAPES = ([], [4], [2, 3])
LINES = ([4],)
HEAVY = ("load_model_swarm", "load_model_igrf", "load_model_wmm", "trace_field_line")
QD = ("eval_qdlatlon", "eval_qdlatlon_with_base_vectors")
FORMS = ("mixed", "named", "none", "excess", "unknown", "twice")


def shapes(func):
    return LINES if func in (*QD, "eval_mlt", "eval_subsol") else SHAPES


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc("CallWalk", cfg=check.pick("CallWalk", "CallWalkDeep"), env={"OUT": exported}, heap="3g", workers=2)
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    exports = [json.loads(json.loads(text)) for text in sorted(set(open(exported)))]
    faults, histories = {}, []
    for item in exports:
        if "func" in item:
            faults.setdefault(item["func"], []).append([item["param"], item["fault"]])
        else:
            histories.append(item["history"])
    names = sorted(faults)
    light = [f for f in names if not f.startswith(HEAVY)]

    def correct(func=None):
        func = func or rnd.choice(light)
        return {"func": func, "seed": rnd.randrange(3), "shape": rnd.choice(shapes(func)), "faults": [], "form": rnd.choice(("mixed", "named"))}

    def faulty(func=None, fault=None, count=1):
        call = correct(func)
        call["form"] = "mixed"
        chosen = [fault] if fault else rnd.sample(faults[call["func"]], min(count, len(faults[call["func"]])))
        call["faults"] = [list(x) for x in dict(chosen).items()]
        need_shape(call)
        return call

    def need_shape(call):
        """ the clash of the shapes needs some dimensions """
        if any(f in ("clash", "last1") for _, f in call["faults"]):
            call["shape"] = [4] if call["func"] in (*QD, "eval_mlt", "eval_subsol") else [2, 3]
        if any(f == "prefix" for _, f in call["faults"]):
            call["shape"] = [2, 8]

    scens = []
    # every fault followed by correct calls of the same and of other functions
    for func in names:
        for fault in faults[func]:
            calls = [faulty(func, fault)]
            if func not in light and func != "trace_field_line":
                calls.append(correct())
            else:
                calls += [correct(func), correct()]
            scens.append({"ev": "calls", "calls": calls})
        for form in FORMS:
            call = correct(func)
            call["form"] = form
            scens.append({"ev": "calls", "calls": [call, correct(func)]})
    # histories of the design
    for history in histories:
        calls = []
        for step in history:
            if step["kind"] == "kernel":
                calls.append(correct() if step["bad"] == 0 else faulty(count=step["bad"]))
            else:
                name = rnd.choice(QD)
                call = correct(name)
                if step["file"].endswith(".dat"):
                    call["file"] = step["file"]
                    if step["bad"]:
                        call = dict(faulty(name), file=step["file"])
                        call["faults"] = [f for f in call["faults"] if f[0] != "fname"] or [["time", "text"]]
                else:
                    call["faults"] = [["fname", step["file"]]]
                    if step["bad"]:
                        call["faults"].append(["gclat", "clash"])
                call["form"] = "mixed" if call["faults"] else call["form"]
                calls.append(call)
        scens.append({"ev": "calls", "calls": calls})
    # long random histories
    for k in range(check.pick(150, 6000)):
        calls = []
        for j in range(rnd.choice((6, 10, 16))):
            draw = rnd.random()
            if draw < 0.2:
                call = correct(rnd.choice(QD))
                call["file"] = rnd.choice(("a.dat", "b.dat"))
            elif draw < 0.45:
                call = correct()
            else:
                call = faulty(rnd.choice(light), count=rnd.choice((1, 1, 2, 3)))
            calls.append(call)
        scens.append({"ev": "calls", "calls": calls})
    # repeated calls: all faults of the functions and their correct calls
    rounds = []
    for func in names:
        heavy = func.startswith(HEAVY)
        count = 4 if heavy else 12
        chosen = faults[func] if check.thorough or not heavy else rnd.sample(faults[func], min(4, len(faults[func])))
        for fault in chosen:
            call = faulty(func, fault)
            rounds.append({"ev": "repeat", "call": call, "count": count, "rounds": 2})
        for k in range(check.pick(1, 5) if not heavy else 1):
            call = correct(func)
            rounds.append({"ev": "repeat", "call": call, "count": count, "rounds": 2})
        for form in FORMS[2:]:
            call = correct(func)
            call["form"] = form
            if not heavy:
                rounds.append({"ev": "repeat", "call": call, "count": count, "rounds": 2})
    # the correct calls in processes without history
    keys = {}
    for scen in scens:
        for call in scen["calls"]:
            if not call["faults"]:
                keys.setdefault(key(call), call)
    fresh = [{"ev": "calls", "calls": [call]} for call in keys.values()]
    everything = scens + fresh + rounds
    observations = [None]*len(everything)
    # the guarded heap has no accounting, the repeated calls run without it
    for chosen, guarded in ((range(len(scens + fresh)), True), (range(len(scens + fresh), len(everything)), False)):
        order = list(chosen)
        rnd.shuffle(order)
        shuffled = common.run_workers(root, "faults", [everything[k] for k in order], jobs=8, name="run%d" % guarded, guarded=guarded)
        for k, obs in zip(order, shuffled):
            observations[k] = obs
    check.phase("execute")
    digests = {}
    for call, obs in zip(keys.values(), observations[len(scens):]):
        digests[key(call)] = obs["lines"][0]["digest"] if "lines" in obs else "crash"
    trace, owner = [], []
    for k, (scen, obs) in enumerate(zip(everything, observations)):
        if "crash" in obs:
            lines = [{"ev": "crash", "obs": obs}]
        elif scen["ev"] == "repeat":
            lines = [{"ev": "repeat", "func": scen["call"]["func"], "obs": obs["repeat"]}]
        else:
            lines = [{"ev": "call", "func": c["func"], "faults": c["faults"], "form": c["form"], "obs": o,
                      "fresh": digests.get(key(c), "")} for c, o in zip(scen["calls"], obs["lines"])]
        trace += lines
        owner += [k]*len(lines)
    order = list(range(len(trace)))
    rnd.shuffle(order)
    bad, _, counts, runs = common.validate("TraceCalls", trace, shards=[order[k::6] for k in range(6)])
    check.add_trace(trace, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"line": trace[idx], "scenario": everything[owner[idx]]})
    check.phase("validate")


def key(call):
    return json.dumps([call["func"], call["seed"], call["shape"], call["form"] if call["form"] not in ("mixed", "named") else "", call.get("file", "a.dat"), call["faults"]])


if __name__ == "__main__":
    common.main("C22", run)

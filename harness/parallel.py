"""Calls made by concurrent threads of one process.

The plans come from Threads.tla: each thread makes its sequence of calls of
the classes 0, 1, 2 (different inputs). Every answer is recorded, the
calls made alone come first.
"""
import json
import os
import random
import sys
import threading
import common


def plans(path):
    """ exported plans """
    return [json.loads(x) for x in sorted(common.read_ndjson(path))]


def start(check, cfg=None):
    """ start the design """
    exported = os.path.join(common.scratch(), "threads.ndjson")
    open(exported, "w").close()
    return exported, common.start_tlc("Threads", cfg or check.pick(None, "ThreadsDeep"), env={"OUT": exported})


def groups(rnd, exported, kinds, size):
    """ scenarios of the given kinds """
    found = plans(exported)
    out = []
    for kind in kinds:
        for number in range(size):
            plan = rnd.choice(found)
            plan = plan + [rnd.choice(rnd.choice(found)) for _ in range(rnd.choice((0, 0, 1, 2)))]
            out.append({"group": "threads-%s-%d" % (kind, number), "kind": kind, "plan": plan,
                        "seed": rnd.randrange(10**6)})
    return out


def records(scens, observations):
    out, owner = [], []
    for scen, obs in zip(scens, observations):
        found = [{"group": scen["group"], **r} for r in obs.get("records", [{"crash": obs.get("crash")}])]
        out += found
        owner += [scen]*len(found)
    return out, owner


def maker(kind, rnd):
    """ functions of the three classes and the number of rounds """
    import numpy as np
    rng = np.random.RandomState(rnd.randrange(2**31))

    def places(n):
        return np.stack([rng.uniform(-90, 90, n), rng.uniform(-180, 180, n), rng.uniform(6400, 7000, n)], -1)

    if kind.startswith("qd"):
        from eoxmagmod import eval_qdlatlon, eval_qdlatlon_with_base_vectors
        import qd
        names = rnd.sample(sorted(qd.REAL), 2)
        func = eval_qdlatlon_with_base_vectors if kind == "qd_base" else eval_qdlatlon

        def make(k):
            x = places(40)
            t = rng.uniform(2000, 2025) + (rng.uniform(0, 10, 40) if rnd.random() < 0.4 else np.zeros(40))
            return lambda: func(x[:, 0], x[:, 1], x[:, 2], t, qd.REAL[names[k % 2]])
        return [make(k) for k in range(3)], 2
    if kind in ("mlt", "subsol"):
        from eoxmagmod import eval_mlt, eval_subsol

        def make(_):
            t = rng.uniform(-3000, 9000, 300)
            q = rng.uniform(-180, 180, 300)
            return (lambda: eval_mlt(q, t)) if kind == "mlt" else (lambda: eval_subsol(t))
        return [make(k) for k in range(3)], 3
    if kind.startswith("sunpos"):
        from eoxmagmod.solar_position import sunpos, sunpos_original

        def make(_):
            x, t = places(300), rng.uniform(210, 30000, 300)
            func = sunpos if kind == "sunpos" else sunpos_original
            return lambda: func(t, x[:, 0], x[:, 1], x[:, 2])
        return [make(k) for k in range(3)], 3
    import sessions
    make = sessions.maker(kind)
    options = [[{}, {"max_degree": 2}, {"min_degree": 2}],
               [{}, {"scale_gradient": 2.0}, {"scale_gradient": -1.0}]]
    options = options[0] if kind.split("_")[0] in ("model", "dipole", "primary", "cgm", "mio", "query") else options[1]
    if kind in ("mio", "primary", "cgm") and rnd.random() < 0.5:
        options = [{"f107": 70.0}, {"f107": 120.0}, {"lat_sol": 10.0, "lon_sol": 30.0}]
    shared = make(0)
    frames = [[rnd.randrange(3), rnd.randrange(3)] for _ in range(3)]
    size = rnd.choice((1, 4, 60))
    which = [rnd.choice((shared, shared, make(1))) for _ in range(3)]

    def call(k):
        i, j = frames[k]
        x = sessions.PLACES[i][rng.randint(0, 3, size)]
        return lambda: which[k](options[k], i, j, k % 2, x)
    return [call(k) for k in range(3)], {1: 40, 4: 25, 60: 5}[size]


def flat(result):
    """ list of all values """
    import numpy as np
    if isinstance(result, (tuple, list)):
        return sum((flat(r) for r in result), [])
    return np.asarray(result, dtype="float64").ravel().tolist()


def execute(item):
    sys.setswitchinterval(1e-6)
    rnd = random.Random(item["seed"])
    calls, rounds = maker(item["kind"], rnd)
    out = []

    def record(form, k, value):
        out.append({"form": form, "keys": [k], "values": [value], "nans": [0], "shape": 1})

    def answer(k):
        try:
            return flat(calls[k]())
        except Exception:  # pylint: disable=broad-except
            return None
    for k in range(3):
        record("alone", k, answer(k))
    plan = item["plan"]
    barrier = threading.Barrier(len(plan))
    answers = [[] for _ in plan]

    def run(number):
        barrier.wait(60)
        for _ in range(rounds):
            for k in plan[number]:
                answers[number].append((k, answer(k)))
    threads = [threading.Thread(target=run, args=(n,)) for n in range(len(plan))]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    seen = set()
    for k, value in sum(answers, []):
        key = (k, None if value is None else tuple(value))
        if key not in seen:     # equal answers are recorded once
            seen.add(key)
            record("thread", k, value)
    for k in range(3):
        record("after", k, answer(k))
    return {"records": out}

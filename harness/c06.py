"""C06: node lookup, interpolation and time-dependent coefficients. """
import json
import os
import random

import common
import large
import gen_coeffs as g


def times_around(rnd, nodes, nan=True, moved=True, span=(-6, 40)):
    times = []
    for k in set(nodes):
        times += [[k, e] for e in ((-1, 0, 1) if moved else (0,))]
    lo, hi = (min(nodes), max(nodes)) if nodes else (0, 0)
    times += [[k, 0] for k in range(lo - 2, hi + 3)]
    times += [[rnd.randint(*span), 0] for _ in range(3)]
    if nan and rnd.random() < 0.7:
        times.append([0, 9])
    times = [t for t in times if rnd.random() < 0.9] or [[0, 0]]
    times += rnd.sample(times, len(times)//4)     # repeated queries
    return times


def series(rnd, kind, duplicities=True):
    count = rnd.choice((1, 1, 2, 2, 3, 4, 5, 7, 9, 16) if kind == "C0"
                       else (2, 2, 3, 4, 5, 7, 9, 16))
    nodes = [rnd.randint(-4, 4)]
    while len(nodes) < count:
        nodes.append(nodes[-1] + rnd.choice((1, 1, 2, 3, 4, 5, 6)))
    if duplicities and count > 2 and rnd.random() < 0.15 and kind == "C0":
        k = rnd.randrange(1, count - 1)
        nodes[k] = nodes[k - 1]
    return nodes


def values(rnd, nodes, rows):
    return [[60*rnd.randint(-3000, 3000) for _ in nodes] for _ in range(rows)]


def shuffled(rnd, count):
    order = list(range(count))
    mode = rnd.random()
    if mode < 0.4:
        rnd.shuffle(order)
    elif mode < 0.6:
        order.reverse()
    return order


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc(
        "Bisect", check.pick(None, "BisectDeep"), env={"OUT": exported})
    rnd = random.Random(check.seed)
    gen = g.Gen(check.seed)
    scens = []

    def add(ev, times, **kwargs):
        scens.append({"ev": ev, "times": times,
                      "order": shuffled(rnd, len(times)), **kwargs})

    for _ in range(check.pick(600, 10000)):
        kind = rnd.choice(("C0", "C1", "C1", "C1D1"))
        nodes = series(rnd, kind)
        times = times_around(rnd, nodes)
        if kind == "C0":
            times += [[g.PINF, 0], [g.NINF, 0]]
        rnd.shuffle(times)
        add("interp", times, nodes=nodes, vals=values(rnd, nodes, rnd.randint(1, 4)),
            kind=kind, extrap=rnd.random() < 0.5)
    for _ in range(check.pick(500, 8000)):
        sets, around = [], []
        for terms in rnd.choice((
                [[[1, 0], [1, 1], [1, -1], [2, 0]]],
                [[[1, 0], [1, 1]], [[1, -1], [2, 0]]],
                [[[1, 0]], [[2, 0], [1, 1]], [[1, -1]]])):
            order = rnd.choice((1, 2))
            nodes = series(rnd, "C%d" % (order - 1), False)
            around += nodes
            sets.append({"nodes": nodes, "order": order, "terms": terms,
                         "vals": [[2*x for x in v] for v in values(rnd, nodes, len(terms))]})
        times = times_around(rnd, around, nan=False)
        rnd.shuffle(times)
        add("sheval", times, sets=sets, layout=rnd.randrange(3))
    for _ in range(check.pick(400, 6000)):
        kind = rnd.choice(("c0", "c1", "dy0", "dy1"))
        leaf = gen.leaf([0, 10], kind)
        times = times_around(rnd, leaf["nodes"], nan=False, moved=kind[0] == "c",
                             span=(-4, 20))
        times = [t for t in times if -4 <= t[0] <= 20]
        rnd.shuffle(times)
        add("leaf", times, tree=leaf)
    for _ in range(check.pick(300, 6000)):     # closely sampled long series
        fine = [rnd.choice((-7000, -1, 0, 3000, 9000)), rnd.randint(-12, 3)]
        ev = rnd.choice(("leaf", "leaf", "interp", "sheval"))
        kind = rnd.choice(("C0", "C1", "C1"))
        nodes = series(rnd, kind, False)
        while len(nodes) < 9 and rnd.random() < 0.9:
            nodes.append(nodes[-1] + rnd.choice((1, 1, 2, 3, 4)))
        vals = [[4*x for x in v] for v in values(rnd, nodes, 4)]
        times = times_around(rnd, nodes, nan=False, moved=kind == "C0", span=(-6, 60))
        rnd.shuffle(times)
        if ev == "interp":
            add(ev, times, nodes=nodes, vals=vals, kind=kind,
                extrap=rnd.random() < 0.5, fine=fine)
        elif ev == "sheval":
            add(ev, times, layout=rnd.randrange(3), fine=fine,
                sets=[{"nodes": nodes, "order": 1 + (kind == "C1"),
                       "terms": g.TERMS, "vals": vals}])
        else:
            tree = gen.leaf([-9, 90], kind.lower(), g.TERMS)
            tree.update(nodes=nodes, vals=vals, perm=shuffled(rnd, len(nodes)))
            add(ev, times, tree=tree, fine=fine)
    for _ in range(check.pick(40, 400)):      # series of many nodes
        nodes = [rnd.randint(-300, 300)]
        size = rnd.choice((127, 128, 129, 256, 257, 300, 513, 1025, rnd.randint(100, 1500)))
        while len(nodes) < size:
            nodes.append(nodes[-1] + rnd.choice((1, 1, 2, 3, 4, 5, 6)))
        times = [[rnd.choice(nodes), rnd.choice((0, 0, -1, 1))] for _ in range(14)]
        times += [[k, e] for k in (nodes[0], nodes[1], nodes[-2], nodes[-1]) for e in (-1, 0, 1)]
        times += [[rnd.randint(nodes[0] - 3, nodes[-1] + 3), 0] for _ in range(14)]
        times += [[nodes[0] - 1, 0], [nodes[-1] + 2, 0]]
        rnd.shuffle(times)
        order, ev = rnd.choice((1, 2)), rnd.choice(("leaf", "interp", "sheval"))
        vals = [[2*x for x in v] for v in values(rnd, nodes, 4)]
        if ev == "interp":
            add(ev, times, nodes=nodes, vals=vals[:2], kind=rnd.choice(("C0", "C1", "C1D1")),
                extrap=rnd.random() < 0.5)
        elif ev == "sheval":
            add(ev, times, layout=rnd.randrange(3),
                sets=[{"nodes": nodes, "order": order, "terms": g.TERMS, "vals": vals}])
        else:
            tree = gen.leaf([-900, 9000], "c%d" % (order - 1), g.TERMS)
            tree.update(nodes=nodes, vals=vals, perm=shuffled(rnd, len(nodes)))
            add(ev, times, tree=tree)
    check.add_design(common.finish_tlc(design))
    for line in common.read_ndjson(exported):
        nodes = json.loads(line)
        times = [[k, e] for k in range(-1, 10) for e in (-1, 0, 1)]
        times += [[0, 9], [g.PINF, 0], [g.NINF, 0]]
        add("bisect", times, nodes=nodes)
    for _ in range(check.pick(150, 2000)):
        nodes = sorted(rnd.randint(-50, 50) for _ in range(rnd.choice((9, 17, 33, 64, 100, 300, 1000))))
        if len(nodes) > 100:
            nodes = sorted(k*13 + rnd.randint(0, 12) for k in nodes)
        low, high = nodes[0] - 5, nodes[-1] + 5
        times = [[rnd.choice((rnd.randint(low, high), rnd.choice(nodes))), rnd.choice((-1, 0, 0, 1))] for _ in range(60)]
        add("bisect", times, nodes=nodes)
    check.phase("design")
    root = common.finish_build(build)
    check.phase("build")
    lines = common.run_workers(root, "interp", scens)
    check.phase("execute")
    shards = [list(range(i, len(lines), 6)) for i in range(6)]
    bad, _, counts, runs = common.validate("TraceInterp", lines, shards=shards)
    large.run(check, root, rnd, large.TIMES)
    check.phase("validate")
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "obs": lines[idx]})


if __name__ == "__main__":
    common.main("C06", run)

"""C04: a combination is the sum of its parts over their common validity. """
import json
import os
import random

import common
import gen_coeffs as g
from c03 import report

KIND = {"none": ("const",), "mjd": ("c0", "c1"), "year": ("dy0", "dy1")}
TERM = {"p": [[1, 0], [1, 1]], "q": [[2, 0], [1, -1]]}


def from_design(path, gen):
    rnd = gen.rnd
    for line in common.read_ndjson(path):
        leafs = []
        for part in json.loads(line):
            iv = rnd.choice(([-4, 20], [0, 16], [3, 12], [rnd.randint(-3, 5),
                             rnd.randint(6, 19)]))
            if part["scale"] == "none" and rnd.random() < 0.5:
                iv = [g.NINF, g.PINF]
            leafs.append(gen.leaf(
                iv, rnd.choice(KIND[part["scale"]]),
                [t for p in part["terms"] for t in TERM[p]]))
        yield g.wrap({"op": "combined", "parts": leafs}, rnd,
                     times=range(-4, 21), lim=rnd.choice(LIMITS))


LIMITS = ((-1, -1), (-1, -1), (-1, -1), (-1, 1), (2, -1), (1, 1), (2, 2),
          (1, 5), (0, 0), (3, -1), (2, 1), (-1, 0))


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc(
        "Combiner", check.pick(None, "CombinerDeep"), env={"OUT": exported})
    rnd = random.Random(check.seed)
    gen = g.Gen(check.seed, kinds=("const", "c0", "c1", "dy1", "dy0"))
    scens = []
    while len(scens) < check.pick(900, 15000):
        gen.internal = rnd.random() < 0.7
        if rnd.random() < 0.9:
            tree = g.random_combined(gen)
        else:
            tree = g.random_composed(gen)
            if "combined" not in json.dumps(tree):
                continue
        if rnd.random() < 0.03:    # mixed internal and external parts
            tree["parts"][-1] = gen.leaf([0, 10])
            tree["parts"][-1]["internal"] = not gen.internal
        if g.ends_ok(tree):
            scens.append(g.wrap(tree, rnd, lim=rnd.choice(LIMITS)))
    for count, kinds in ((n, k) for n in (15, 16, 17, 18, 20) for k in (("const",), ("c1",), ("const", "c0", "c1"), ("dy1",), ("dy1", "c1"))):
        silent = [[n, m] for n in range(3, 9) for m in range(-n, n + 1)
                  if m and (n - m) % 2]       # no effect in the probes
        rnd.shuffle(silent)
        parts = [gen.leaf([-4, 20], rnd.choice(kinds), [silent.pop()]) for _ in range(count - 1)]
        parts.insert(rnd.randrange(count), gen.leaf([0, 16], rnd.choice(kinds)))
        scens.append(g.wrap({"op": "combined", "parts": parts}, rnd))
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    gen.internal = True
    scens = list(from_design(exported, gen)) + scens
    root = common.finish_build(build)
    check.phase("build")
    report(check, root, scens)


if __name__ == "__main__":
    common.main("C04", run)

"""Scenario generation for coefficient trees (seeded). """
import random

PINF, NINF = 1000000, -1000000
TERMS = [[1, 0], [1, 1], [1, -1], [2, 0]]


class Gen:
    def __init__(self, seed, kinds=("const", "c0", "c1", "dy1"), internal=True):
        self.rnd = random.Random(seed)
        self.kinds = kinds
        self.internal = internal
        self.uid = 0

    def leaf(self, iv, kind=None, terms=None):
        rnd = self.rnd
        kind = kind or rnd.choice(self.kinds)
        terms = terms or rnd.sample(TERMS, rnd.randint(1, 4))
        lo, hi = iv
        if kind == "const":
            nodes = [0]
        elif kind.endswith("0"):
            nodes = sorted(rnd.sample(range(-3, 19), rnd.randint(1, 6)))
        else:  # gaps dividing 4
            nodes = [rnd.randint(-3, 2)]
            for _ in range(rnd.randint(1, 5)):
                nodes.append(nodes[-1] + rnd.choice((1, 2, 4, 4)))
            while nodes[-1] > 19:
                nodes.pop()
        self.uid += 1
        # distinct values: the set is recognizable
        vals = [[8*(37*self.uid % 1009 + rnd.randint(1, 50)*13 + 5*j)
                 for j in range(len(nodes))] for _ in terms]
        perm = list(range(len(nodes)))
        if rnd.random() < 0.3:
            rnd.shuffle(perm)
        return {"op": "leaf", "perm": perm, "lo": lo, "hi": hi, "kind": kind, "terms": terms,
                "nodes": nodes, "vals": vals, "internal": self.internal}

    def interval(self, inf=0.2):
        rnd = self.rnd
        lo, hi = sorted(rnd.sample(range(-2, 19), 2))
        if rnd.random() < inf:
            lo = NINF
        if rnd.random() < inf:
            hi = PINF
        return [lo, hi]

    def fix_inf(self, leaf):
        """ decimal-year series need finite validity """
        return leaf


def wrap(tree, rnd, times=None, lim=(-1, -1)):
    times = list(times or range(-4, 21))
    order = list(range(len(times)))
    rnd.shuffle(order)
    return {"tree": tree, "lim": list(lim), "times": times, "order": order,
            "layout": rnd.randrange(3)}


def composed_from(ivs, gen, kinds=None):
    parts = [gen.leaf(list(iv), kinds and gen.rnd.choice(kinds)) for iv in ivs]
    if len(parts) == 1:
        return parts[0]
    return {"op": "composed", "parts": parts}


def random_composed(gen, depth=0):
    rnd = gen.rnd
    style = rnd.random()
    nparts = rnd.randint(2, 5) if rnd.random() < 0.96 else rnd.randint(6, 18)
    if style < 0.55:   # consecutive, shuffled, with random extensions
        cuts = sorted(rnd.sample(range(-2, 19), nparts + 1))
        ivs = [[max(-3, cuts[i] - rnd.choice((0, 0, 0, 1, 3))),
                cuts[i + 1] + rnd.choice((0, 0, 0, 2))] for i in range(nparts)]
        if rnd.random() < 0.2:
            ivs[0][0] = NINF
        if rnd.random() < 0.2:
            ivs[-1][1] = PINF
        if rnd.random() < 0.6:
            rnd.shuffle(ivs)
    else:              # anything
        ivs = [gen.interval() for _ in range(nparts)]
    parts = []
    for iv in ivs:
        if depth < 1 and rnd.random() < 0.15:
            parts.append(random_combined(gen, depth + 1, iv))
        else:
            parts.append(gen.leaf(iv))
    return {"op": "composed", "parts": parts}


def random_combined(gen, depth=0, iv=None):
    rnd = gen.rnd
    parts = []
    for _ in range(rnd.randint(2, 4)):
        if iv is not None:
            sub = [iv[0] - rnd.choice((0, 1)) if iv[0] > NINF else NINF,
                   iv[1] + rnd.choice((0, 1)) if iv[1] < PINF else PINF]
            parts.append(gen.leaf(sub))
        elif depth < 1 and rnd.random() < 0.35:
            parts.append(random_composed(gen, depth + 1))
        else:
            parts.append(gen.leaf(gen.interval(0.4)))
    if iv is not None:   # the combination covers exactly the interval
        parts[0]["lo"], parts[0]["hi"] = iv
    return {"op": "combined", "parts": parts}


def ends_ok(tree):
    """ no empty combination inside of a composition (undefined there) """
    def validity(node):
        if node["op"] == "leaf":
            return node["lo"], node["hi"]
        ivs = [validity(x) for x in node["parts"]]
        if node["op"] == "composed":
            return min(x[0] for x in ivs), max(x[1] for x in ivs)
        return max(x[0] for x in ivs), min(x[1] for x in ivs)

    def check(node, inside):
        if node["op"] == "leaf":
            return node["lo"] <= node["hi"]
        if inside and node["op"] == "combined":
            lo, hi = validity(node)
            if lo >= hi:
                return False
        return all(check(x, inside or node["op"] == "composed")
                   for x in node["parts"])
    return check(tree, False)

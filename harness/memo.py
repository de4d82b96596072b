"""Turns recorded evaluation histories to traces of TraceMemo.tla.

A record of the workers: {"group", "form", "keys": [hashable], "values":
[[floats] or None for an exception], "nans": [0/1/2], "shape": 0/1} or
{"group", "crash": reason}.
"""
import common

NAN, ERROR = 1, 2


class Tokens:
    """ Numbers of distinct results of an input. """
    def __init__(self, rtol=1e-11, atol=0.0):
        self.rtol, self.atol = rtol, atol
        self.seen = {}

    def __call__(self, key, value):
        if value is None:
            return ERROR
        if not isinstance(value, list):
            value = [value]
        if value and all(x != x for x in value):
            return NAN
        found = self.seen.setdefault(key, [])
        for number, other in found:
            if len(value) != len(other):
                continue
            size = max((abs(x) for x in other if x == x and abs(x) != float("inf")),
                       default=0.0)
            tol = self.rtol*size + self.atol
            if all((x != x and y != y) or x == y or abs(x - y) <= tol
                   for x, y in zip(value, other)):
                return number
        number = 3 + len(found)
        found.append((number, value))
        return number


def lines_of(records, forms, tokens, nans=True):
    """ Trace of one group of records. """
    index = {}
    lines = []
    for record in records:
        if "crash" in record:
            lines.append({"crash": record["crash"]})
            continue
        keys = [tuple(k) if isinstance(k, list) else k for k in record["keys"]]
        group = record["group"]
        lines.append({
            "keys": [index.setdefault((group, k), len(index) + 1) for k in keys],
            "toks": [tokens((group, k), v) for k, v in zip(keys, record["values"])],
            "nans": record["nans"], "form": record["form"], "shape": record["shape"],
        })
    return [{"keys": len(index), "forms": sorted(forms), "nans": int(nans)}, *lines]


def validate(check, records, rtol=1e-11, atol=0.0, shards=6, name="memo", detail=None, nans=True):
    """ Validate the records (in the order of their execution). """
    tokens = Tokens(rtol, atol)
    forms = {r["form"] for r in records if "form" in r}
    groups = {}
    for i, record in enumerate(records):
        groups.setdefault(str(record["group"]), []).append(i)
    buckets = [[] for _ in range(max(1, min(shards, len(groups))))]
    for group in sorted(groups.values(), key=len, reverse=True):
        min(buckets, key=len).extend(group)
    lines, shard_idx, owner = [], [], []
    for bucket in buckets:
        bucket.sort()
        part = lines_of([records[i] for i in bucket], forms, tokens, nans)
        shard_idx.append(list(range(len(lines), len(lines) + len(part))))
        lines.extend(part)
        owner.extend([None, *bucket])
    bad, _, counts, runs = common.validate("TraceMemo", lines, shards=shard_idx, name=name)
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        record = records[owner[idx]]
        check.violate(clauses, {
            "record": record, "line": lines[idx],
            **({"scenario": detail(owner[idx])} if detail else {})})
    return counts

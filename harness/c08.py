"""C08: time conversions against the calendar. """
import random

import common
import large


def start(y):
    """ only to place the scenarios; the specification has its own """
    if y <= 1582:
        return 365*(y - 2000) + (y + 3)//4 - 487
    return 365*(y - 2000) + (y + 3)//4 - (y - 1)//100 + (y - 1)//400 - 485


SPECIAL = (-4700, -4001, -4, -1, 0, 1, 3, 4, 5, 100, 400, 1000, 1500, 1581, 1582, 1583,
           1584, 1600, 1700, 1800, 1899, 1900, 1901, 1970, 1996, 1999, 2000, 2001, 2004,
           2015, 2020, 2024, 2025, 2100, 2200, 2400, 3000, 9996, 9998, 10000)


def run(check):
    build = common.start_build()
    design = common.start_tlc("CalendarWalk", check.pick(None, "CalendarWalkDeep"))
    rnd = random.Random(check.seed)
    scens = []
    for y0 in range(-4700, 10000, 50):
        scens.append({"ev": "years", "y0": y0, "count": 50, "scalar": rnd.random() < 0.2})
    for y0, count in ((1, 30), (9900, 99), (1580, 5)):
        scens.append({"ev": "years", "y0": y0, "count": count, "scalar": True})
    years = list(SPECIAL) + [rnd.randint(1583, 2500) for _ in range(check.pick(250, 900))]
    years += [rnd.randint(-4700, 10000) for _ in range(check.pick(150, 3000))]
    for y in years:
        length = 355 if y == 1582 else start(y + 1) - start(y)
        if check.thorough or rnd.random() < 0.1:
            items = [[k, q] for k in range(length) for q in (0, rnd.randint(1, 15))]
        else:
            ks = {0, 1, 31, 58, 59, 60, 364, 365, length - 1, length//2}
            ks |= {rnd.randrange(length) for _ in range(12)}
            items = [[k, q] for k in sorted(ks) if k < length
                     for q in (0, rnd.randint(1, 15), 15)]
        rnd.shuffle(items)
        scens.append({"ev": "days", "y": y, "start": start(y), "items": items})
    for _ in range(check.pick(200, 4000)):
        y = rnd.choice((rnd.randint(1583, 4000), rnd.randint(1960, 2040), 1900, 2000, 2100))
        leap = start(y + 1) - start(y) == 366
        items = []
        for _ in range(20):
            m = rnd.randint(1, 12)
            last = (29 if leap else 28) if m == 2 else 30 if m in (4, 6, 9, 11) else 31
            items.append([m, rnd.choice((1, last, rnd.randint(1, last))),
                          rnd.choice((0, 43200, 86399, rnd.randrange(86400))),
                          rnd.choice((0, 1, 63, rnd.randrange(64)))])
        scens.append({"ev": "instants", "y": y, "items": items})
    for _ in range(check.pick(150, 3000)):
        style = rnd.random()
        times = set()
        for _ in range(60):
            y = rnd.randint(-4000, 9000) if style < 0.3 else rnd.randint(1850, 2150)
            base = start(y)
            if rnd.random() < 0.6:      # around a year start
                times |= {base + s*10.0**rnd.randint(-6, 1) for s in (-1, 1)} | {float(base)}
            else:
                times.add(base + rnd.uniform(0, 366))
        ordered = []
        for t in sorted(times):
            if not ordered or t - ordered[-1] > 1e-6:
                ordered.append(t)
        scens.append({"ev": "order", "times": ordered})
    for y in years:
        if y in (1582, 1583):
            continue
        steps = [[0, 0.0]] + [[s, 10.0**-rnd.uniform(0, 12)] for s in (-1, 1) for _ in range(5)] + [[s, x] for s in (-1, 1) for x in (1e-12, 1e-3)]
        scens.append({"ev": "edges", "y": y, "start": start(y), "length": [start(y + 1) - start(y), start(y) - start(y - 1)], "steps": steps})
    for _ in range(check.pick(60, 800)):
        function = rnd.choice(("decimal_year_to_mjd2000", "mjd2000_to_decimal_year",
                               "mjd2000_to_year_fraction"))
        data = []
        for _ in range(rnd.randint(12, 20)):
            y = rnd.choice((rnd.randint(1900, 2100), rnd.randint(-3000, 5000)))
            data.append(y + rnd.choice((0.0, rnd.random())) if function[0] == "d"
                        else start(y) + rnd.choice((0.0, rnd.uniform(0, 366))))
        for extra in rnd.sample(("nan", "inf", "-inf", "nan"), rnd.randint(0, 3)):
            data.insert(rnd.randrange(len(data)), extra)
        scens.append({"ev": "layout", "function": function, "data": data})
    scens.append({"ev": "simple", "items": list(range(-49, 50))})
    scens.append({"ev": "simple", "items": [rnd.randint(-4000, 4000) for _ in range(99)]})
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    root = common.finish_build(build)
    check.phase("build")
    observations = common.run_workers(root, "calendars", scens)
    check.phase("execute")
    lines = []
    for s, o in zip(scens, observations):
        line = {k: s[k] for k in ("ev", "y0", "y", "items") if k in s}
        lines.append({**line, "obs": o})
    shards = [list(range(i, len(lines), 4)) for i in range(4)]
    bad, _, counts, runs = common.validate("TraceCalendar", lines, shards=shards)
    large.run(check, root, rnd, large.CALENDAR)
    check.phase("validate")
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "obs": observations[idx]})


if __name__ == "__main__":
    common.main("C08", run)

"""C09: broadcasting of times, locations and options. """
import json
import os
import random

import common
import large

# rule and number of the inputs of the functions of shapes.py
FRAMES = range(3)
RULES = {}
for _i, _n in enumerate(("static", "linear", "composed", "mixed", "dipole",
                         "dipole_static", "cgm", "empty")):
    for _a, _b in ((_i % 3, (_i + _i//3) % 3), ((_i + 1) % 3, (_i + 2) % 3)):
        RULES["%s_%d%d" % (_n, _a, _b)] = ("longest", 2)
for _n in ("mio", "primary", "cgm_mio"):
    RULES.update({_n: ("longest", 2), _n + "_f": ("options", 3),
                  _n + "_fs": ("options", 5), _n + "_s": ("options", 4)})
for _m in (1, 2, 3):
    RULES.update({"sheval_%d" % _m: ("longest", 2), "sheval_dipole_%d" % _m: ("equal", 1),
                  "shevaltemp_%d" % _m: ("longest", 2), "sheval2dfs_%d" % _m: ("longest", 3)})
for _a in FRAMES:
    RULES["convert_to_dipole_%d" % _a] = ("equal", 1)
    for _b in FRAMES:
        RULES["convert_%d%d" % (_a, _b)] = ("equal", 1)
RULES.update({
    "fourier2d": ("equal", 2), "interp_0": ("outer", 2), "interp_1": ("outer", 2),
    "interp_17": ("outer", 2), "spharpot": ("longest", 5), "spharpot3": ("longest", 3),
    "sphargrd": ("longest", 4), "sphargrd_l": ("longest", 3), "legendre": ("equal", 1),
    "loncossin": ("equal", 1), "relradpow": ("equal", 1), "vrot_sph2geod": ("refer", 2),
    "vrot_sph2cart": ("refer", 3), "vrot_cart2sph": ("refer", 3), "vrotate_sc": ("refer", 2),
    "vrotate_gc": ("refer", 2), "vrotate_cs": ("refer", 2), "vrotate_cg": ("refer", 2),
    "vrotate_sg": ("refer", 2), "vrotate_gs": ("refer", 2), "vrot_from_dipole_s": ("refer", 3),
    "vrot_from_dipole_c": ("refer", 3), "vnorm": ("equal", 1), "vincdecnorm": ("equal", 1),
    "sunpos": ("mutual", 3), "sunpos_r": ("mutual", 3), "sunpos_l": ("mutual", 3),
    "sunpos_original": ("mutual", 3), "sunpos_original_o": ("mutual", 3),
    "sunpos_original_r": ("mutual", 3), "qdlatlon": ("flat", 3), "qdlatlon_t": ("flat", 2),
    "qdlatlon_v": ("flat", 3), "qdlatlon_u": ("flat", 2), "mlt": ("flat", 2),
    "subsol": ("flat", 1), "mut": ("equal", 1), "mut_s": ("numpy", 2), "mut_p": ("numpy", 3),
    "mjd2000_to_decimal_year": ("equal", 1), "mjd2000_to_year_fraction": ("equal", 1),
    "mjd2000_to_decimal_year_simple": ("equal", 1),
    "mjd2000_to_year_fraction_simple": ("equal", 1), "decimal_year_to_mjd2000": ("equal", 1),
    "decimal_year_to_mjd2000_simple": ("equal", 1),
})
# numbers of different single values by the number of inputs
BASE = {1: 4, 2: 4, 3: 4, 4: 3, 5: 3}
# functions where a part of the arguments is expanded by the harness
SKIP_EMPTY = ()


def random_shapes(rnd, rule, count):
    """ compatible shapes and shapes spoiled in one dimension """
    full = [rnd.choice((1, 2, 2, 3, 3, 4, 0)) for _ in range(rnd.choice((1, 2, 2, 3, 3, 4)))]
    if rule == "flat":
        full = full[:1]
    shapes = []
    for j in range(count):
        if rule == "longest":
            shapes.append(full[:rnd.choice((0, len(full), rnd.randrange(len(full) + 1)))])
        elif rule == "options":
            cut = rnd.choice((0, len(full), len(full), rnd.randrange(len(full) + 1)))
            shapes.append(full[:cut])
        elif rule in ("mutual", "refer"):
            shapes.append(full if rule == "refer" and j == 0 or rnd.random() < 0.6 else [])
        elif rule == "outer":
            shapes.append([rnd.choice((1, 2, 3)) for _ in range(rnd.choice((0, 1, 2)))])
        elif rule == "numpy":
            shapes.append([rnd.choice((1, d, d)) for d in full[rnd.randrange(len(full)):]])
        else:
            shapes.append(full)
    if rule == "options":
        shapes[rnd.randrange(2)] = full
    if rnd.random() < 0.25:
        j = rnd.randrange(count)
        shape = list(shapes[j])
        how = rnd.random()
        if shape and how < 0.4:
            shape[rnd.randrange(len(shape))] += rnd.choice((1, -1)) or 1
        elif how < 0.8:
            shape.append(rnd.choice((1, 2)))
        else:
            shape.insert(0, rnd.choice((1, 2)))
        shapes[j] = [max(0, d) for d in shape]
    return shapes


def run(check):
    build = common.start_build()
    exported = os.path.join(common.scratch(), "design.ndjson")
    open(exported, "w").close()
    design = common.start_tlc(
        "BroadcastRules", check.pick(None, "BroadcastRulesDeep"), env={"OUT": exported},
        heap="4g", workers=check.pick(1, 4))
    rnd = random.Random(check.seed)
    root = common.finish_build(build)
    check.phase("build")
    check.add_design(common.finish_tlc(design))
    check.phase("design")
    table = {}
    for item in map(json.loads, common.read_ndjson(exported)):
        key = item["rule"], len(item["shapes"]), item["ok"]
        table.setdefault(key, []).append(item["shapes"])
    for value in table.values():
        rnd.shuffle(value)
    scens = []
    size = check.pick(36, 250)
    for func, (rule, count) in sorted(RULES.items()):
        chosen = list(table.get((rule, count, True), ())[:size])
        chosen += rnd.sample(table.get((rule, count, False), ()),
                             min(size//2, len(table.get((rule, count, False), ()))))
        rnd.shuffle(table.get((rule, count, True), []))
        chosen += [random_shapes(rnd, rule, count) for _ in range(size)]
        for shapes in chosen:
            total = [1]*count
            for j, shape in enumerate(shapes):
                for dim in shape:
                    total[j] *= dim
            if max(total) > 200:
                continue
            scens.append({
                "func": func, "rule": rule, "base": BASE[count], "shapes": shapes,
                "pal": [[rnd.randrange(BASE[count]) for _ in range(t)] for t in total]})
    observations = common.run_workers(root, "shapes", scens)
    check.phase("execute")
    lines = []
    for scen, obs in zip(scens, observations):
        if "crash" in obs:
            lines.append({"obs": {"crash": obs["crash"]}})
            continue
        canon = obs.pop("canon")
        lines.append({**{k: scen[k] for k in ("rule", "shapes", "pal", "base")},
                      "canon": canon, "obs": obs})
    bad, _, counts, runs = common.validate("TraceBroadcast", lines, shards=6)
    check.add_trace(lines, runs, counts)
    for idx, clauses in bad:
        check.violate(clauses, {"scenario": scens[idx], "observed": lines[idx]["obs"]})
    names = (large.MODELS + large.APEX + large.SUN + large.SKY + large.CALENDAR + large.FRAMES
             + large.BLOCKS + large.TIMES)
    large.run(check, root, rnd, names, check.pick(1, 4))
    check.phase("validate")


if __name__ == "__main__":
    common.main("C09", run)

"""Calls with long arrays against the calls made for their elements alone.

The elements are taken from a pool of few points, so that every element of
an array of 10^5 values has an answer given to the point alone. The pairs
(point, answer) of a call are recorded without repetitions.
"""
import random
import memo
import common

SIZES = (1000, 1024, 1025, 2049, 4096, 4097, 8193, 10000, 16385, 32769, 50001,
         65536, 65537, 99999, 131073, 200003)
SLOW = {"mixed_01": 5000, "mixed_12": 5000}
POOL = 6
# names by property
MODELS = ["static_00", "static_12", "linear_11", "linear_20", "composed_22", "composed_01",
          "mixed_01", "mixed_12", "dipole_12", "dipole_20", "dipole_static_20",
          "dipole_static_01", "cgm_02", "cgm_12", "mio", "mio_f", "mio_fs", "mio_s", "primary",
          "primary_f", "primary_fs", "primary_s", "cgm_mio", "cgm_mio_f", "cgm_mio_fs",
          "cgm_mio_s", "empty_10", "empty_20"] + [
              "%s_%d" % (n, m) for n in ("sheval", "sheval_dipole", "shevaltemp", "sheval2dfs")
              for m in (1, 2, 3)]
APEX = ["qdlatlon", "qdlatlon_t", "qdlatlon_v", "qdlatlon_u"]
SUN = ["mlt", "subsol", "mut", "mut_s", "mut_p"]
SKY = ["sunpos", "sunpos_r", "sunpos_l", "sunpos_original", "sunpos_original_o",
       "sunpos_original_r"]
CALENDAR = ["mjd2000_to_decimal_year", "mjd2000_to_year_fraction",
            "mjd2000_to_decimal_year_simple", "mjd2000_to_year_fraction_simple",
            "decimal_year_to_mjd2000", "decimal_year_to_mjd2000_simple"]
FRAMES = ["convert_%d%d" % (a, b) for a in range(3) for b in range(3)] + [
    "convert_to_dipole_%d" % a for a in range(3)] + [
        "vrot_sph2geod", "vrot_sph2cart", "vrot_cart2sph", "vrotate_sc", "vrotate_gc",
        "vrotate_cs", "vrotate_cg", "vrotate_sg", "vrotate_gs", "vrot_from_dipole_s",
        "vrot_from_dipole_c", "vnorm", "vincdecnorm"]
BLOCKS = ["spharpot", "spharpot3", "sphargrd", "sphargrd_l", "legendre", "loncossin",
          "relradpow", "fourier2d"]
TIMES = ["interp_0", "interp_1", "interp_17"]
HELD = {"longest", "options", "mutual", "numpy"}    # rules expanding single values
FLAT = {"flat"}                                     # one-dimensional arrays only


def start(check, root, rnd, names, count=None):
    """ records of the calls of the functions """
    scens = []
    for name in names:
        for number in range(count or check.pick(2, 8)):
            scens.append({"func": name, "seed": rnd.randrange(2**31), "first": int(number == 0),
                          "group": "large-%s-%d" % (name, number)})
    observations = common.run_workers(root, "large", scens, name="large")
    records, owner = [], []
    for scen, obs in zip(scens, observations):
        found = obs.get("records") or [{"crash": obs.get("crash")}]
        records += [{"group": scen["group"], **r} for r in found]
        owner += [scen]*len(found)
    return records, owner


def run(check, root, rnd, names, count=None):
    """ execute and validate """
    records, owner = start(check, root, rnd, names, count)
    memo.validate(check, records, detail=lambda i: owner[i], name="large", nans=False)


def order(rnd, rng, size):
    """ numbers of the points of the elements """
    import numpy as np
    how = rnd.random()
    if how < 0.5:
        return rng.randint(0, POOL, size)
    if how < 0.8:       # runs of equal points
        longest = rnd.choice((3, 100, 5000))
        runs = rng.randint(1, longest + 1, size//(longest//2 + 1) + 1)
        out = np.repeat(np.arange(runs.size) % POOL, runs)
        return np.resize(out, size)
    return np.arange(size)*rnd.choice((1, POOL - 1)) % POOL


def execute(item):
    import numpy as np
    import shapes
    if not shapes.FUNCTIONS:
        shapes.FUNCTIONS.update(shapes.functions())
    rnd = random.Random(item["seed"])
    rng = np.random.RandomState(rnd.randrange(2**31))
    name = item["func"]
    rule, palettes, function = shapes.FUNCTIONS[name]
    pool = [rng.randint(0, 4, POOL) for _ in palettes]
    for which in pool[:rnd.choice((1, 1, len(pool)))]:
        which[:4] = rng.permutation(4)
    held = []
    if rule == "outer":
        held = [rnd.randrange(2)]
    elif rule in HELD and len(palettes) > 1 and rnd.random() < 0.4:
        held = rnd.sample(range(len(palettes)), rnd.randrange(1, len(palettes)))
    if rule == "options" and {0, 1} <= set(held):
        held.remove(rnd.randrange(2))
    for j in held:
        pool[j][:] = pool[j][0]
    out = []

    def record(form, keys, values, shape):
        out.append({"form": form, "keys": keys, "values": values, "nans": [0]*len(keys), "shape": shape})

    def rows_of(result, lead):
        """ rows of the elements, None if the shapes are wrong """
        parts = shapes.parts_of(result)
        if any(p.shape[:len(lead)] != lead for p in parts):
            return None
        count = int(np.prod(lead, dtype=int))
        return np.concatenate([p.reshape(count, -1) for p in parts], axis=1)

    for k in range(POOL):
        try:
            row = rows_of(function(*(p[w[k]] for p, w in zip(palettes, pool))), ())[0].tolist()
        except Exception:  # pylint: disable=broad-except
            row = None
        record("alone", [k], [row], 1)
    top = SLOW.get(name, 10**9)
    sizes = [n for n in SIZES if n <= top]
    chosen = [rnd.choice(sizes), rnd.choice(sizes[-2:]) if item["first"] else rnd.choice(sizes)]
    if top > 10**6:
        chosen.append(rnd.randrange(300, 70000))
    rnd.shuffle(chosen)
    for size in chosen:
        lead = (size,)
        if rule not in FLAT and rnd.random() < 0.4:
            cut = rnd.choice((2, 3, 7, 64))
            lead = rnd.choice(((cut, max(1, size//cut)), (max(1, size//cut), cut)))
        which = order(rnd, rng, int(np.prod(lead)))
        args = []
        for j, (palette, picks) in enumerate(zip(palettes, pool)):
            if j in held:
                args.append(palette[picks[0]])
            else:
                args.append(palette[picks[which]].reshape((*lead, *palette.shape[1:])))
        try:
            rows = rows_of(function(*args), lead)
        except Exception:  # pylint: disable=broad-except
            record("large", [int(which[0])], [None], 1)
            continue
        if rows is None:
            record("large", [], [], 0)
            continue
        keys, values = [], []
        for k in range(POOL):
            left = rows[which == k]
            for _ in range(4):
                if not len(left):
                    break
                keys.append(k)
                values.append(left[0].tolist())
                left = left[((left != left[0]) & ~(np.isnan(left) & np.isnan(left[0]))).any(axis=1)]
        record("large", keys, values, 1)
    return {"records": out}

"""Blocks of the spherical harmonic evaluation and their sums. """
import math
import random
import numpy as np
from eoxmagmod import (
    legendre, loncossin, relradpow, spharpot, sphargrd, sheval, sheval_dipole, convert, GEOCENTRIC_SPHERICAL, GEODETIC_ABOVE_WGS84,
)
from eoxmagmod._pymm import sheval2dfs, shevaltemp
import evals
from eoxmagmod._pymm import fourier2d

UNIT = 10**8
NONE = 2000000000


def ints(values, scale=UNIT):
    arr = np.asarray(values, dtype="float64")*scale
    with np.errstate(all="ignore"):
        bad = ~(np.abs(arr) < NONE)
    return np.where(bad, NONE, np.rint(np.where(bad, 0, arr))).astype("int64").tolist()


def angle(tri):
    """ angle of rational sine and cosine in degrees, quarter turns exactly """
    if tri[0] == 0 or tri[1] == 0:
        return {(0, 1): 0.0, (1, 0): 90.0, (-1, 0): -90.0, (0, -1): 180.0}[(tri[0], tri[1])]
    return math.degrees(math.atan2(tri[0], tri[1]))


def shaped(value, kind):
    """ argument as a scalar, item of an array or item of a strided array """
    if kind == 0:
        return value, ()
    if kind == 1:
        return [12.5, value, -12.5], (1,)
    if kind == 2:
        return np.array([[1.0, 2.0, 3.0], [4.0, 5.0, value]]), (1, 2)
    arr = np.array([7.0, value, 8.0, 9.0])[::-2]
    return arr, (1,)


def item_legendre(item):
    degree = item["degree"]
    lat = item["lat"] if "lat" in item else angle(item["tri"])
    arg, idx = shaped(lat, item["kind"])
    p, d = legendre(arg, degree)
    size = (degree + 1)*(degree + 2)//2
    base = np.shape(arg)
    if p.shape != (*base, size) or d.shape != (*base, size):
        return {"crash": "shape %s %s" % (p.shape, d.shape)}
    p, d = p[idx], d[idx]
    cos = math.cos(math.radians(lat))
    start = [(n*(n + 1))//2 for n in range(degree + 2)]
    rows = [p[a:b] for a, b in zip(start[:-1], start[1:])]
    drows = [d[a:b]/max(n, 1) for n, (a, b) in enumerate(zip(start[:-1], start[1:]))]
    extra = int(min(10000, math.ceil(4e-16/abs(cos)*1e8)))
    return {"lines": [{
        "ev": "legendre", "degree": degree, "s": ints(math.sin(math.radians(lat))), "c": ints(cos), "lat": repr(lat), "extra": extra,
        "obs": {"p": [ints(r) for r in rows], "d": [ints(r) for r in drows],
                "q": [0] + [ints(r[1]/cos/n) for n, r in enumerate(rows) if n > 1]}}]}


def item_rows(item):
    """ some of the rows of high degrees """
    degree, lat = item["degree"], item["lat"]
    arg, idx = shaped(lat, item["kind"])
    p, d = legendre(arg, degree)
    size = (degree + 1)*(degree + 2)//2
    if p.shape != (*np.shape(arg), size) or d.shape != (*np.shape(arg), size):
        return {"crash": "shape %s %s" % (p.shape, d.shape)}
    p, d = p[idx], d[idx]
    if not np.isfinite(p).all() or not np.isfinite(d).all():
        return {"crash": "not finite"}
    rows = [slice(n*(n + 1)//2, (n + 1)*(n + 2)//2) for n in item["rows"]]
    extra = int(min(10000, math.ceil(4e-16/abs(math.cos(math.radians(lat)))*1e8*degree)))
    return {"lines": [{"ev": "rows", "degree": degree, "rows": item["rows"], "lat": repr(lat), "extra": extra,
                       "obs": {"p": [ints(p[r]) for r in rows],
                               "d": [ints(d[r]/n) for n, r in zip(item["rows"], rows)]}}]}


def item_loncossin(item):
    degree = item["degree"]
    lon = (item["lon"] if "lon" in item else angle(item["tri"])) + 360*item["turns"]
    arg, idx = shaped(lon, item["kind"])
    default = loncossin(arg, degree)
    fast, slow = loncossin(arg, degree, True), loncossin(arg, degree, fast_alg=False)
    if fast.shape != (*np.shape(arg), degree + 1, 2) or slow.shape != fast.shape:
        return {"crash": "shape %s" % (fast.shape,)}
    if not np.array_equal(default, fast):
        return {"crash": "default algorithm"}
    if "tri" in item:
        s, c = item["tri"][0]/item["tri"][2], item["tri"][1]/item["tri"][2]
    else:
        s, c = math.sin(math.radians(lon)), math.cos(math.radians(lon))
    return {"lines": [{"ev": "loncossin", "degree": degree, "s": ints(s), "c": ints(c),
                       "obs": {"fast": ints(fast[idx]), "slow": ints(slow[idx])}}]}


def mantissa(value):
    if value == 0 or not math.isfinite(value):
        return 0, 0
    exp = math.floor(math.log10(abs(value))) - 7
    m = value/10.0**exp if exp > -290 else value*1e100/10.0**(exp + 100)
    if round(m) >= 10**8:
        exp += 1
        m /= 10
    return int(round(m)), exp


def item_relradpow(item):
    degree, (p, q), internal = item["degree"], item["ratio"], item["internal"]
    ref = item["reference"]
    rad = ref*p/q
    arg, idx = shaped(rad, item["kind"])
    kw = {} if internal and item["default"] else {"is_internal": bool(internal)}
    if ref != 6371.2 or not item["default"]:
        kw["reference_radius"] = ref
    res = relradpow(arg, degree, **kw)
    if res.shape != (*np.shape(arg), degree + 1):
        return {"crash": "shape %s" % (res.shape,)}
    pairs = [mantissa(v) for v in res[idx]]
    return {"lines": [{"ev": "relradpow", "degree": degree, "ratio": [p, q], "internal": internal,
                       "obs": {"first": ints(res[idx][0], 1e6), "m": [m for m, _ in pairs], "e": [e for _, e in pairs]}}]}


def item_nearpower(item):
    """ next to the reference radius """
    degree, internal, ref = item["degree"], item["internal"], item["reference"]
    rad = ref*(1 + item["step"])
    arg, idx = shaped(rad, item["kind"])
    kw = {} if internal and item["default"] else {"is_internal": bool(internal)}
    if ref != 6371.2 or not item["default"]:
        kw["reference_radius"] = ref
    res = relradpow(arg, degree, **kw)
    if res.shape != (*np.shape(arg), degree + 1):
        return {"crash": "shape %s" % (res.shape,)}
    return {"lines": [{"ev": "nearpower", "degree": degree, "step": ints((rad - ref)/ref), "internal": internal, "obs": {"powers": ints(res[idx])}}]}


def item_radius0(item):
    def name(v):
        return "inf" if v == math.inf else "one" if v == 1 else "zero" if v == 0 else "other"
    res = relradpow(0.0, item["degree"], is_internal=bool(item["internal"]))
    return {"lines": [{"ev": "radius0", "degree": item["degree"], "internal": item["internal"],
                       "obs": {"classes": [name(v) for v in res]}}]}


def item_fourier(item):
    rnd = random.Random(item["seed"])
    t1, t2 = (math.radians(angle(t)) for t in (item["one"], item["two"]))
    # time in units of the scale
    s1, s2 = rnd.choice((1.0, 2.0, 0.25, -0.5)), rnd.choice((1.0, 4.0, -0.125))
    n1, n2 = item["shape"]
    stack = item["stack"]
    coeffs, lines = [], []
    for _ in range(math.prod(stack)):
        arr = np.zeros((n1, n2, 2))
        for _ in range(rnd.choice((1, 1, 3, 6))):
            arr[rnd.randrange(n1), rnd.randrange(n2), rnd.randrange(2)] = rnd.choice((-2, -1, 1, 2))
        coeffs.append(arr)
    coeff = np.array(coeffs).reshape((*stack, n1, n2, 2))
    times = item["times"]
    # the tested time is the last of several
    a1, a2 = (np.full(times, x) for x in (0.3, -0.7))
    if times:
        a1[tuple(k - 1 for k in times)], a2[tuple(k - 1 for k in times)] = t1/s1, t2/s2
    else:
        a1, a2 = t1/s1, t2/s2
    kw = {"scale1": s1, "scale2": s2} if (s1, s2) != (1.0, 1.0) or rnd.random() < 0.5 else {}
    res = fourier2d(a1, a2, coeff, item["least"][0], item["least"][1], **kw)
    if np.shape(res) != (*times, *stack):
        return {"crash": "shape %s" % (np.shape(res),)}
    res = np.asarray(res)[tuple(k - 1 for k in times)].ravel()
    for value, arr in zip(res, coeffs):
        lines.append({"ev": "fourier", "shape": [n1, n2], "least": item["least"],
                      "one": ints([item["one"][0]/item["one"][2], item["one"][1]/item["one"][2]]),
                      "two": ints([item["two"][0]/item["two"][2], item["two"][1]/item["two"][2]]),
                      "coeff": arr.astype(int).tolist(), "obs": {"value": ints(value)}})
    return {"lines": lines}


def item_sums(item):
    rnd = random.Random(item["seed"])
    degree = item["degree"]
    size = (degree + 1)*(degree + 2)//2
    pole, internal = item["pole"], item["internal"]
    # arrays of different sizes - the least size is applied
    excess = {k: 0 for k in ("coef", "lp", "ldp", "rrp", "lcs")}
    for k in item["excess"]:
        excess[k] = rnd.choice((1, 2, 5))
    def rand(lo, hi, *shape):
        return np.array([rnd.randint(lo, hi) for _ in range(math.prod(shape))], dtype="float64").reshape(shape)
    def tri(n):
        return (n + 1)*(n + 2)//2
    lead = item["lead"]
    def block(name, lo, hi, tail):
        shape = (*lead, *tail) if name in item["full"] else tail
        return rand(lo, hi, *shape)
    # sizes between two triangular numbers are of the lower degree
    odd = {k: (rnd.randint(0, degree + excess[k] + 1) if k in item["odd"] else 0) for k in ("coef", "lp", "ldp")}
    coef = block("coef", -9, 9, (tri(degree + excess["coef"]) + odd["coef"], 2))
    lp = block("lp", -3, 3, (tri(degree + excess["lp"]) + odd["lp"],))
    ldp = block("ldp", -3, 3, (tri(degree + excess["ldp"]) + odd["ldp"],))
    rrp = block("rrp", 1, 3, (degree + excess["rrp"] + 1,))
    lcs = block("lcs", -1, 1, (degree + excess["lcs"] + 1, 2))
    # functions of degree and order zero are known
    lp[..., 0], ldp[..., 0], lcs[..., 0, :] = 1, 0, (1, 0)
    lat = 90.0*pole if pole else item["lat"]
    lat_ = np.full(lead, lat) if lead else lat
    rad = rnd.randint(1, 50)
    rad_ = np.full(lead, float(rad)) if lead else rad
    kwp, kwg = {}, {}
    limit = item["limit"]
    if limit is not None:
        kwp["degree"] = kwg["degree"] = limit
    if not internal:
        kwg["is_internal"] = False
    elif rnd.random() < 0.5:
        kwg["is_internal"] = True
    pot = spharpot(rad_, coef, lp, rrp, lcs, **kwp)
    grd = sphargrd(lat_, coef, lp, ldp, rrp, lcs, **kwg)
    if np.shape(pot) != tuple(lead) or grd.shape != (*lead, 3):
        return {"crash": "shape %s %s" % (np.shape(pot), grd.shape)}
    # the degree of the potential does not depend on the derivatives
    applied = degree if limit is None or limit < 0 else min(limit, degree)
    pdegree = min(degree + excess[k] for k in excess if k != "ldp")
    papplied = pdegree if limit is None or limit < 0 else min(limit, pdegree)
    idx = tuple(k - 1 for k in lead)
    def pick(name, arr):
        return (arr[idx] if name in item["full"] else arr).astype(int).tolist()
    g = np.asarray(grd)[idx]
    east = g[1]*1e6 if pole else g[1]*math.cos(math.radians(lat))*1e4
    return {"lines": [{
        "ev": "sums", "applied": [papplied, applied], "internal": internal, "pole": pole, "rad": rad,
        "coef": pick("coef", coef), "lp": pick("lp", lp), "ldp": pick("ldp", ldp), "rrp": pick("rrp", rrp), "lcs": pick("lcs", lcs),
        "obs": {"pot": ints(np.asarray(pot)[idx], 1), "grd": [ints(g[0], 1), ints(east, 1), ints(g[2], 1)]}}]}


def model(degree, seed):
    rng = np.random.RandomState(seed)
    size = (degree + 1)*(degree + 2)//2
    coef = rng.uniform(-100, 100, (size, 2))
    for n in range(degree + 1):
        coef[n*(n + 1)//2, 1] = 0.0
    return coef


def item_compose(item):
    degree, internal = item["degree"], bool(item["internal"])
    coef = model(degree, item["seed"])
    rng = np.random.RandomState(item["seed"] + 1)
    count = 6
    lat = rng.uniform(-90, 90, count)
    lat[:2] = 90, -90
    lon = rng.uniform(-400, 400, count)
    ratio = rng.uniform(1.0, 1.2, count) if internal else rng.uniform(0.8, 1.0, count)
    rad = ratio*6371.2
    p, dp = legendre(lat, degree)
    lcs = loncossin(lon, degree)
    rrp = relradpow(rad, degree, is_internal=internal)
    limit = item["limit"]
    pot = spharpot(rad, np.broadcast_to(coef, (count, *coef.shape)) if item["full"] else coef, p, rrp, lcs, degree=limit)
    grd = sphargrd(lat, np.broadcast_to(coef, (count, *coef.shape)) if item["full"] else coef, p, dp, rrp, lcs,
                   is_internal=internal, degree=limit)
    coords = np.stack((lat, lon, rad), axis=1)
    epot, egrd = sheval(coords, coef=coef, mode=3, is_internal=internal, degree=limit,
                        coord_type_in=GEOCENTRIC_SPHERICAL, coord_type_out=GEOCENTRIC_SPHERICAL)
    used = degree if limit < 0 else min(limit, degree)
    norm = sum(np.abs(coef[:tri(used)]).sum(1)*np.repeat(np.arange(1, used + 2), np.arange(1, used + 2)))
    powers = np.maximum(rrp.max(1), 1)
    diff = np.abs(pot - epot)/(6371.2*norm*powers)
    diff2 = (np.abs(grd - egrd).max(1))/(norm*powers)
    values = np.concatenate((diff, diff2))*1e11
    undefined = int(not np.isfinite(values).all())
    return {"lines": [{"ev": "compose", "degree": degree, "obs": {"undefined": undefined, "diff": ints(values, 1)}}]}


def tri(n):
    return (n + 1)*(n + 2)//2


def item_approach(item):
    """ field in the vicinity of a pole by a Cartesian vector """
    degree, pole, lon = item["degree"], item["pole"], item["lon"]
    coef = model(degree, item["seed"])
    norm = sum(np.abs(coef).sum(1)*np.repeat(np.arange(1, degree + 2), np.arange(1, degree + 2)))/4

    def field(lat, lon):
        if item["whole"]:
            g = sheval((lat, lon, 6371.2), coef=coef, mode=2, degree=degree, coord_type_in=GEOCENTRIC_SPHERICAL, coord_type_out=GEOCENTRIC_SPHERICAL)
        else:
            p, dp = legendre(lat, degree)
            g = sphargrd(lat, coef, p, dp, relradpow(6371.2, degree), loncossin(lon, degree))
        la, lo = math.radians(lat), math.radians(lon)
        n = np.array([-math.sin(la)*math.cos(lo), -math.sin(la)*math.sin(lo), math.cos(la)])
        e = np.array([-math.sin(lo), math.cos(lo), 0])
        u = np.array([math.cos(la)*math.cos(lo), math.cos(la)*math.sin(lo), math.sin(la)])
        return g[0]*n + g[1]*e + g[2]*u
    ref = field(90.0*pole, 0.0)
    diffs, dist, slopes = [], [], []
    for k in item["steps"]:
        delta = 10.0**-k*item["factor"]
        lat = pole*(90 - delta)
        diff = (field(lat, lon) - ref)/norm
        diffs.append(np.abs(diff).max())
        dist.append(math.radians(90 - abs(lat)))
        if degree <= 16 and 1e-9 < dist[-1] < 3e-2:
            slopes.append([math.ceil(dist[-1]*1e8), ints(diff/dist[-1], 1e6)])
    undefined = int(not np.isfinite(diffs).all())
    return {"lines": [{"ev": "approach", "degree": degree, "distance": [math.ceil(d*1e8) for d in dist],
                       "obs": {"undefined": undefined, "slopes": slopes if not undefined else [], "diff": ints(diffs)}}]}


def item_factor(item):
    """ scaled and separate evaluations against the plain one """
    degree, internal, kind = item["degree"], bool(item["internal"]), item["kind"]
    rng = np.random.RandomState(item["seed"])
    count = item["count"]
    coords = np.stack((rng.uniform(-80, 80, count), rng.uniform(-180, 180, count), rng.uniform(-40, 400, count)), axis=1)
    coords = convert(coords, GEODETIC_ABOVE_WGS84, item["cin"])
    opts = {"coord_type_in": item["cin"], "coord_type_out": item["cout"], "is_internal": internal}
    if kind in ("sheval", "sheval_dipole"):
        coef = model(degree, item["seed"])
        func = sheval if kind == "sheval" else lambda x, c, **o: sheval_dipole(x, c, 80.0, -72.0, **o)
        def call(**o):
            return func(coords, coef, **opts, **o)
    elif kind == "shevaltemp":
        sets = evals.time_sets("linear", degree)
        def call(**o):
            return shevaltemp(4321.0, coords, sets, **opts, **o)
    else:
        coeff = evals.mio_coeff(degree, internal).get_f2fs_coeff_set()
        def call(**o):
            return sheval2dfs(0.3, 7.5, coords, coeff, **opts, **o)
    ppot, pgrd = call(mode=3)
    units = 1e6/np.abs(ppot).max(), 1e6/np.abs(pgrd).max()
    given = {}
    if item["sp"] is not None:
        given["scale_potential"] = float(item["sp"])
    if item["sg"] is not None:
        given["scale_gradient"] = np.array(item["sg"], dtype="float64") if len(item["sg"]) == 3 else float(item["sg"][0])
    result = call(mode=item["mode"], **given)
    pot, grd = {1: (result, None), 2: (None, result), 3: result}[item["mode"]]
    sp = 1 if item["sp"] is None else item["sp"]
    sg = [1, 1, 1] if item["sg"] is None else item["sg"]*(3 // len(item["sg"]))
    return {"lines": [{"ev": "factor", "sp": sp, "sg": sg, "obs": {
        "plain": [ints(ppot, units[0]), [ints(g, units[1]) for g in pgrd]],
        "pot": [] if pot is None else ints(pot, units[0]),
        "grd": [] if grd is None else [ints(g, units[1]) for g in grd]}}]}


def execute(item):
    return globals()["item_" + item["ev"]](item)

"""Evaluates sequences of points in all kinds of calls. """
import numpy as np
from buffers import Buffers
from eoxmagmod import (
    sheval, sheval_dipole, ComposedGeomagneticModel,
    GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
)
from eoxmagmod._pymm import sheval2dfs, shevaltemp
from eoxmagmod.magnetic_model.coefficients import (
    ComposedSHCoefficients, CombinedSHCoefficients,
    SparseSHCoefficientsConstant, SparseSHCoefficientsTimeDependent,
    SparseSHCoefficientsTimeDependentDecimalYear,
)
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.model_mio import (
    MIOPrimaryGeomagneticModel, DipoleMIOGeomagneticModel,
)

NAN = float("nan")
NANVALUE = 2          # index of the NaN in the palettes
POLE = (80.0, -72.0)
COORDS = {
    GEOCENTRIC_SPHERICAL: [
        [12.5, -48.25, NAN, 12.500001, 90.0, -90.0],
        [33.0, -121.5, NAN, 33.000001, 180.0, -180.0],
        [6700.0, 6390.0, NAN, 6700.001, 6371.2, 6481.2]],
    GEODETIC_ABOVE_WGS84: [
        [12.5, -48.25, NAN, 12.500001, 90.0, -90.0],
        [33.0, -121.5, NAN, 33.000001, 180.0, -180.0],
        [400.0, 25.0, NAN, 400.001, 0.0, 110.0]],
    GEOCENTRIC_CARTESIAN: [
        [3000.0, -4500.0, NAN, 3000.001, 0.0, 6000.0],
        [-2500.0, 3500.0, NAN, -2500.001, 0.0, 5000.0],
        [6000.0, -3800.0, NAN, 6000.001, 0.0, -6500.0]],
}
# times of the models: two segments, close to the first, node, behind the end
TIMES = [4000.25, 4700.5, NAN, 4000.2501, 4400.0, 5300.0]
NODES = np.array([3800.0, 4100.0, 4400.0, 4600.0, 5000.0])
T1 = [0.13, 0.71, NAN, 0.130001, 0.0, 0.5]            # season
T2 = [5.5, 17.25, NAN, 5.500001, 0.0, 12.0]           # universal time
F107 = [90.0, 140.0, NAN, 90.0001, 0.0, -40.0]


def nm_terms(degree):
    return np.array([(n, m) for n in range(1, degree + 1) for m in range(-n, n + 1)], dtype="int32")


def coeff_values(degree, shape=(), seed=0):
    terms = nm_terms(degree)
    rng = np.random.RandomState(seed)
    return terms, rng.uniform(-100, 100, (len(terms), *shape)) * (
        8.0 / (terms[:, 0] + 1)**2).reshape(-1, *([1]*len(shape)))


def dense(degree, seed=0):
    terms, values = coeff_values(degree, (), seed)
    out = np.zeros(((degree + 1)*(degree + 2)//2, 2))
    for (n, m), v in zip(terms, values):
        out[n*(n + 1)//2 + abs(m), int(m < 0)] = v
    return out


def time_sets(variant, degree):
    if variant == "linear":
        terms, values = coeff_values(degree, (5,), 1)
        return [(NODES, values, terms, 2)]
    if variant == "const":
        terms, values = coeff_values(degree, (5,), 1)
        return [(NODES, values, terms, 1)]
    terms, values = coeff_values(degree, (5,), 1)
    half = len(terms)//2
    return [(NODES, values[:half], terms[:half], 2),
            (NODES[1:4] + 50, values[half:, 1:4], terms[half:], 1),
            ]


def mio_coeff(degree, internal, extent=(-1, 2, -2, 1), seed=0):
    pmin, pmax, smin, smax = extent
    terms, values = coeff_values(degree, (smax - smin + 1, pmax - pmin + 1, 2), 3 + internal + 10*seed)
    return SparseSHCoefficientsMIO(terms, values, ps_extent=extent, is_internal=internal)


def sh_coeff(kind, degree, seed=0):
    if kind == "static":
        return SparseSHCoefficientsConstant(*coeff_values(degree, (), 10*seed))
    if kind == "linear":
        terms, values = coeff_values(degree, (5,), 1 + 10*seed)
        return SparseSHCoefficientsTimeDependent(terms, values, NODES)
    if kind == "years":
        terms, values = coeff_values(degree, (5,), 1 + 10*seed)
        return SparseSHCoefficientsTimeDependentDecimalYear(
            terms, values, 2000 + NODES/365.25)
    if kind == "composed":
        terms, values = coeff_values(degree, (5,), 1 + 10*seed)
        return ComposedSHCoefficients(
            SparseSHCoefficientsTimeDependent(terms, values, NODES, validity_end=4300.0),
            SparseSHCoefficientsConstant(terms, values[:, 0],
                                         validity_start=4300.0, validity_end=4650.0),
            SparseSHCoefficientsTimeDependent(terms, 2*values, NODES, validity_start=4650.0))
    if kind == "mixed":     # falls back to the default evaluation
        return CombinedSHCoefficients(sh_coeff("linear", degree, seed), sh_coeff("years", degree, seed))
    if kind == "combined":
        terms, values = coeff_values(degree, (5,), 1 + 10*seed)
        return CombinedSHCoefficients(
            SparseSHCoefficientsTimeDependent(terms[::2], values[::2], NODES),
            SparseSHCoefficientsConstant(terms[1::2], values[1::2, 0]))
    raise KeyError(kind)


def make(cfg):
    """ evaluation function f(a, b, x) and the use of the two times """
    func, degree = cfg["func"], cfg["degree"]
    opts = {"coord_type_in": cfg["cin"], "coord_type_out": cfg["cout"]}
    if func in ("sheval", "sheval_coef"):
        coef = dense(degree)
        opts.update(mode=cfg["mode"], is_internal=cfg["internal"])
        if func == "sheval":
            return lambda a, b, x: sheval(x, coef, **opts), (None, None)

        def eval_coef(a, b, x):     # an array of coefficients chosen by a
            table = np.stack([dense(degree, int(k)) for k in range(6)])
            idx = np.searchsorted(np.arange(6), np.nan_to_num(np.asarray(a), nan=2.0))
            return sheval(x, table[idx], **opts)
        return eval_coef, ([0.0, 1.0, 2.0, 3.0, 4.0, 5.0], None)
    if func == "sheval_dipole":
        coef = dense(degree)
        opts.update(mode=cfg["mode"], is_internal=cfg["internal"])
        return lambda a, b, x: sheval_dipole(x, coef, *POLE, **opts), (None, None)
    if func == "shevaltemp":
        opts.update(mode=cfg["mode"], is_internal=cfg["internal"])
        sets = time_sets(cfg["variant"], degree)
        return lambda a, b, x: shevaltemp(a, x, sets, **opts), (TIMES, None)
    if func == "sheval2dfs":
        opts.update(mode=cfg["mode"], is_internal=cfg["internal"])
        set_ = mio_coeff(degree, cfg["internal"]).get_f2fs_coeff_set()
        return lambda a, b, x: sheval2dfs(a, b, x, coef_set=set_, **opts), (T1, T2)
    frames = {"input_coordinate_system": cfg["cin"],
              "output_coordinate_system": cfg["cout"]}
    if func == "model":
        model = SphericalHarmomicGeomagneticModel(sh_coeff(cfg["variant"], degree))
    elif func == "dipole":
        model = DipoleSphericalHarmomicGeomagneticModel(
            sh_coeff(cfg["variant"], degree), POLE)
    elif func == "cgm":
        model = ComposedGeomagneticModel()
        model.push(SphericalHarmomicGeomagneticModel(sh_coeff(cfg["variant"], degree)))
        model.push(DipoleSphericalHarmomicGeomagneticModel(
            sh_coeff("linear", degree), POLE), scale=-0.5)
    elif func == "mio":
        model = DipoleMIOGeomagneticModel(mio_coeff(degree, cfg["internal"]), POLE)
    elif func == "primary":
        model = MIOPrimaryGeomagneticModel(
            DipoleMIOGeomagneticModel(mio_coeff(degree, False), POLE),
            DipoleMIOGeomagneticModel(mio_coeff(degree, True), POLE))
    else:
        raise KeyError(func)
    if func in ("mio", "primary"):
        return lambda a, b, x: model.eval(a, x, f107=b, **frames), (TIMES, F107)
    return lambda a, b, x: model.eval(a, x, **frames), (TIMES, None)


def must_be_nan(cfg, point, uses):
    if cfg["cin"] == GEOCENTRIC_CARTESIAN and point[2:] == [4, 4, 4]:
        return 2      # the center of the Earth
    if NANVALUE in point[2:]:
        # the uniform external field does not depend on the radius
        return 2 if cfg["degree"] == 1 and not cfg["internal"] and point[4] == NANVALUE else 1
    if uses[0] is not None and cfg["func"] != "sheval_coef":
        if point[0] == NANVALUE:
            return 2 if cfg.get("variant") == "const" and cfg["func"] == "shevaltemp" \
                or cfg.get("variant") == "sets" else 1
        if point[0] == 5 and cfg["func"] in ("model", "dipole", "cgm"):
            return 2  # outside of the validity
    if uses[1] is not None and point[1] == NANVALUE:
        return 1
    return 0


def flatten(result, count, mode):
    """ rows of numbers and correctness of the shape """
    if isinstance(result, tuple):
        first, ok1 = flatten(result[0], count, 1)
        second, ok2 = flatten(result[1], count, 2)
        return [a + b for a, b in zip(first, second)], ok1 and ok2
    arr = np.asarray(result, dtype="float64")
    shape = tuple(count) if mode == 1 else (*count, 3)
    ok = int(arr.shape == shape)
    return arr.reshape(int(np.prod(count)), -1).tolist() if ok else None, ok


def near(values, cfg):
    """ the value next to the first one at the required distance """
    out = list(values)
    out[3] = out[0] + (out[3] - out[0])*cfg.get("near", 1.0)
    return out


def call(cfg, function, uses, form, seq):
    """ one call, returns effective points, values and correctness of the shape """
    coords = [near(c, cfg) for c in COORDS[cfg["cin"]]]
    uses = [near(u, cfg) if u is not None and cfg["func"] != "sheval_coef" else u for u in uses]
    mode = cfg.get("mode", 2)
    points = [[p[0] if uses[0] is not None else 0, p[1] if uses[1] is not None else 0,
               *p[2:]] for p in seq]
    n = len(points)
    if form == "times" and uses[0] is None:
        form = "array"
    if form == "times":            # single location
        points = [[*p[:2], *points[0][2:]] for p in points]
    elif form == "places":         # single time
        points = [[*points[0][:2], *p[2:]] for p in points]
    elif form == "outer":          # times of the first dimension
        points = [[*p[:2], *q[2:]] for p in points for q in points]
    elif form == "matrix":
        points = points + points[::-1]
    elif form == "cube":
        points = (points + points[:1] + points[::-1] + points[:1])*2
    a = np.array([uses[0][p[0]] if uses[0] is not None else 0.0 for p in points])
    b = np.array([uses[1][p[1]] if uses[1] is not None else 0.0 for p in points])
    x = np.array([[c[k] for c, k in zip(coords, p[2:])] for p in points])
    count = (len(points),)
    if form == "single":
        rows, ok = [], 1
        for i in range(n):
            part, good = flatten(function(a[i], b[i], x[i]), (), mode)
            rows += part or [[]]
            ok &= good
        return points, rows, ok
    if form == "times":
        x = x[0]
    elif form == "places":
        a, b = a[0], b[0]
    elif form == "outer":
        count = (n, n)
        a, b = a.reshape(n, n)[:, 0], b.reshape(n, n)[:, 0]
        x = x.reshape(n, n, 3)
    elif form == "matrix":
        count = (2, n)
    elif form == "cube":
        count = (2, 2, n + 1)
    if form in ("matrix", "cube"):
        a, b, x = a.reshape(count), b.reshape(count), x.reshape((*count, 3))
    rows, ok = flatten(function(a, b, x), count, mode)
    return points, rows or [[]]*len(points), ok


def execute(item):
    cfg = item["cfg"]
    function, uses = make(cfg)
    function = Buffers().wrap(function)
    records = []
    for form, seq in item["calls"]:
        try:
            points, rows, ok = call(cfg, function, uses, form, seq)
        except Exception as error:  # pylint: disable=broad-except
            points, rows, ok = seq, [None]*len(seq), 1
            records.append({"error": repr(error)[:200]})
        records.append({
            "form": form, "keys": points, "values": rows, "shape": ok,
            "nans": [must_be_nan(cfg, p, uses) for p in points]})
    return {"records": records}

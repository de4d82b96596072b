"""Builds compositions of models by pushes and evaluates them on the way. """
import json
from math import asin, atan2, degrees, hypot, sqrt
import numpy as np
from eoxmagmod import (
    GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
    ComposedGeomagneticModel,
)
from eoxmagmod.magnetic_model.coefficients import (
    SparseSHCoefficientsConstant, SparseSHCoefficientsTimeDependent,
)
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel

NONE, NAN_TIME, NAN_INDEX, INF = -99, -77, -55, 1000
RADIUS = 6371.2
T0, STEP = 4000.0, 100.0
WOLF, F107 = 0.01, 100.0
FRAMES = (GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN)
NORM = {(1, 0): 1.0, (1, 1): 1.0, (1, -1): 1.0, (2, 0): 1.0, (2, 1): 1/sqrt(3), (2, -1): 1/sqrt(3),
        (2, 2): 2/sqrt(3), (2, -2): 2/sqrt(3)}
_LEAVES = {}


def time_of(k):
    return float("nan") if k == NAN_TIME else T0 + STEP*k


def pole_angles(q):
    return (degrees(atan2(q["sl"], q["cl"])), degrees(atan2(q["so"], q["co"])))


def leaf(item):
    """ one object for each description - models are shared by the compositions """
    key = json.dumps(item, sort_keys=True)
    if key not in _LEAVES:
        _LEAVES[key] = make_leaf(item)
    return _LEAVES[key]


def make_leaf(item):
    terms = item["terms"]
    nm = np.array([t[:2] for t in terms], dtype="int32").reshape(-1, 2)
    norm = np.array([NORM[tuple(t[:2])] for t in terms])
    val = np.array([t[2] for t in terms], dtype="float64")*norm
    slope = np.array([t[3] for t in terms], dtype="float64")*norm
    internal = not item["ext"]
    if item["kind"] == "mio":
        coeff = SparseSHCoefficientsMIO(
            nm, np.stack([val, 0*val], axis=-1).reshape(-1, 1, 1, 2),
            ps_extent=(0, 0, 0, 0), is_internal=internal)
        return DipoleMIOGeomagneticModel(coeff, pole_angles(item["pole"][0]), wolf_ratio=WOLF)
    start = -np.inf if item["start"] <= -INF else time_of(item["start"])
    end = np.inf if item["end"] >= INF else time_of(item["end"])
    if start == -np.inf or end == np.inf or start == end:
        coeff = SparseSHCoefficientsConstant(
            nm, val, validity_start=start, validity_end=end, is_internal=internal)
    else:
        knots = np.arange(item["start"], item["end"] + 1)
        coeff = SparseSHCoefficientsTimeDependent(
            nm, val[:, None] + slope[:, None]*knots, T0 + STEP*knots, is_internal=internal)
    if item["pole"]:
        return DipoleSphericalHarmomicGeomagneticModel(coeff, pole_angles(item["pole"][0]))
    return SphericalHarmomicGeomagneticModel(coeff)


def options(item):
    out = {}
    if item["lo"] != NONE:
        out["min_degree"] = item["lo"]
    if item["hi"] != NONE:
        out["max_degree"] = item["hi"]
    if item["f107"] != NONE:
        out["f107"] = float("nan") if item["f107"] == NAN_INDEX else F107*item["f107"]
    if item.get("out_scale", NONE) != NONE:
        out["scale"] = item["out_scale"]
    return out


def build(item):
    if item["kind"] != "comp":
        return leaf(item)
    model = ComposedGeomagneticModel()
    for part in item["parts"]:
        push(model, part)
    return model


def push(model, part):
    opts = options(part)
    if part["scale"] == 1 and len(part["model"].get("terms", ())) % 2:
        model.push(build(part["model"]), **opts)    # default scale
    else:
        model.push(build(part["model"]), scale=part["scale"], **opts)


def location(point, frame):
    """ coordinates of a point of the reference sphere """
    x, y, z = (c/point["rho"] for c in point["u"])
    if frame == GEOCENTRIC_CARTESIAN:
        return [RADIUS*x, RADIUS*y, RADIUS*z]
    lon = degrees(atan2(point["lon"][1], point["lon"][0]) if point["hor"] == 0 else atan2(y, x))
    lat = degrees(atan2(z, hypot(x, y)))
    if frame == GEOCENTRIC_SPHERICAL:
        return [lat, lon, RADIUS]
    return [lat, lon, RADIUS - (6378.137 if z == 0 else 6356.75231424517949)]


def integers(vector, den):
    if np.isnan(vector).any():
        return [] if np.isnan(vector).all() else [0]
    scaled = np.asarray(vector)*den
    out = np.round(scaled)
    if np.abs(scaled - out).max() > 0.05 or np.abs(out).max() > 2e9:
        return [0]
    return [int(v) for v in out]


def validity_units(validity):
    def unit(value):
        if value == np.inf:
            return INF
        if value == -np.inf:
            return -INF
        k = (value - T0)/STEP
        return int(round(k)) if abs(k - round(k)) < 1e-9 else -555
    return [unit(v) for v in validity]


def same(a, b):
    return a.shape == b.shape and bool(((a == b) | (np.isnan(a) & np.isnan(b))).all())


def deviates(a, b, scale):
    if a.shape != b.shape or (np.isnan(a) != np.isnan(b)).any():
        return 1
    return int(bool((np.abs(np.nan_to_num(a) - np.nan_to_num(b)) > 1e-9*scale + 1e-12).any()))


GENERAL = {
    GEODETIC_ABOVE_WGS84: [[47.1, 15.3, 500.0], [-89.9, 179.999, 0.0], [90.0, 35.0, 10.0], [0.0, -180.0, 2000.]],
    GEOCENTRIC_SPHERICAL: [[47.1, 15.3, 6900.0], [-89.9, 180.0, 6371.2], [-90.0, 35.0, 6400.0], [12.0, 359.0, 8000.]],
    GEOCENTRIC_CARTESIAN: [[4000., 2000., -5000.], [-7000., 1e-9, 3.0], [0.0, 0.0, 6500.0], [0.0, -6600.0, 1.0]],
}


def general(model, item, opts, call):
    """ the sum of the separate evaluations """
    result = 0
    for cin in FRAMES:
        for cout in FRAMES:
            for shape in (0, 1):
                times = np.array([time_of(k) for k in call["times"]][:1]*4)
                if shape:
                    times = times[0]
                places = np.array(GENERAL[cin])
                got = model.eval(times, places, cin, cout, **options(opts))
                want, size = np.zeros(places.shape), 0.0
                for part in item["parts"]:
                    args = {**options({**opts, "out_scale": NONE}), **options(part)}
                    single = build(part["model"]).eval(times, places, cin, cout, **args)
                    want = want + part["scale"]*single
                    size += abs(part["scale"])*np.nanmax(np.abs(np.append(single, 0.0)))
                if not item["parts"]:
                    want[np.isnan(np.broadcast_to(times, 4))] = np.nan
                if opts["out_scale"] != NONE:
                    want, size = want*opts["out_scale"], size*abs(opts["out_scale"])
                result |= deviates(np.asarray(got), want, size)
    return result


def execute(item):
    tree = item["tree"]
    model = ComposedGeomagneticModel()
    if item["constructor"]:
        model = ComposedGeomagneticModel(*[build(p["model"]) for p in tree["parts"]])
    pushed = len(tree["parts"]) if item["constructor"] else 0
    records = []
    for call in item["calls"]:
        while pushed < call["count"]:
            push(model, tree["parts"][pushed])
            pushed += 1
        opts = {**call["opts"], "out_scale": call["opts"]["scale"]}
        args = options(opts)
        times = np.array([time_of(k) for k in call["times"]])
        places = np.array([location(p, call["cin"]) for p in call["points"]])
        if call["form"] == "single":
            rows = np.array([model.eval(t, x, call["cin"], call["cout"], **args)
                             for t, x in zip(times, places)])
            again = np.array([model.eval(t, x, call["cin"], call["cout"], **args)
                              for t, x in zip(times, places)])
        else:
            rows = model.eval(times, places, call["cin"], call["cout"], **args)
            first = rows.copy()
            again = model.eval(times, places, call["cin"], call["cout"], **args)
            if not same(first, rows):
                again = again + 1e9      # changed by the second call
        current = {"kind": "comp", "parts": tree["parts"][:call["count"]]}
        records.append({
            "field": [integers(v, d) for v, d in zip(rows, call["dens"])],
            "validity": validity_units(model.validity),
            "params": sorted(model.parameters),
            "repeated": int(same(np.asarray(rows), np.asarray(again))),
            "general": general(model, current, opts, call) if call["general"] else -1,
        })
    return {"records": records}

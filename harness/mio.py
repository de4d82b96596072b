"""Evaluates the MIO models. """
import os
import tempfile
from math import asin, atan2, degrees, sqrt
import numpy as np
import eoxmagmod
from eoxmagmod import (
    GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN, convert, sunpos,
    load_model_swarm_mio_external, load_model_swarm_mio_internal,
)
from eoxmagmod._pymm import fourier2d, sheval2dfs, POTENTIAL
from eoxmagmod.magnetic_model.coefficients_mio import (
    SparseSHCoefficientsMIO, SCALE_SEASONAL, SCALE_DIURNAL,
)
from eoxmagmod.magnetic_model.loader_mio import convert_external_mio_coeff
from eoxmagmod.magnetic_model.model_mio import (
    MIOPrimaryGeomagneticModel, DipoleMIOGeomagneticModel,
)
import assembly
import evals

NONE, NAN_TIME, NAN_INDEX = -99, -77, -55
RADIUS = 6371.2
WOLF, F107 = 0.01, 100.0
NAN = float("nan")


def time_of(q):
    """ quarters from the start of 2001 """
    return NAN if q == NAN_TIME else 366.0 + (365.0*q)/4


def coeff_of(terms, internal, valid):
    nm = sorted({tuple(t[:2]) for t in terms})
    smin, smax = min([t[2] for t in terms] + [0]), max([t[2] for t in terms] + [0])
    pmin, pmax = min([t[3] for t in terms] + [0]), max([t[3] for t in terms] + [0])
    coeff = np.zeros((len(nm), smax - smin + 1, pmax - pmin + 1, 2))
    for n, m, s, p, c, d in terms:
        coeff[nm.index((n, m)), s - smin, p - pmin] += assembly.NORM[(n, m)]*np.array([c, d])
    start = -np.inf if valid[0] <= -1000 else time_of(valid[0])
    end = np.inf if valid[1] >= 1000 else time_of(valid[1])
    return SparseSHCoefficientsMIO(
        np.array(nm, dtype="int32"), coeff, ps_extent=(pmin, pmax, smin, smax),
        is_internal=internal, validity_start=start, validity_end=end)


def make(item):
    pole = assembly.pole_angles(item["pole"])
    below = above = None
    if item["kind"] in ("external", "primary"):
        below = DipoleMIOGeomagneticModel(
            coeff_of(item["below"], False, item["valid"]), pole, wolf_ratio=WOLF)
    if item["kind"] in ("internal", "primary"):
        above = DipoleMIOGeomagneticModel(
            coeff_of(item["above"], True, item["valid"]), pole, wolf_ratio=WOLF)
    if item["kind"] == "primary":
        return MIOPrimaryGeomagneticModel(below, above, height=RADIUS*(item["h"]/2 - 1))
    return below or above


def location(elem, frame):
    point, scale = elem["p"], elem["r"]/2
    if frame == GEOCENTRIC_CARTESIAN:
        return [scale*RADIUS*c/point["rho"] for c in point["u"]]
    lat, lon, _ = assembly.location(point, GEOCENTRIC_SPHERICAL)
    if frame == GEOCENTRIC_SPHERICAL:
        radius = scale*RADIUS
        for _ in range(abs(elem["side"])):
            radius = np.nextafter(radius, np.inf*elem["side"])
        return [lat, lon, radius]
    return [lat, lon, scale*RADIUS - (6378.137 if point["u"][2] == 0 else 6356.75231424517949)]


def sun_of(elem, q):
    """ latitude and longitude of the direction given in the dipole frame """
    x, y, z = elem["sun"]
    sl, cl, so, co = q["sl"]/q["d"], q["cl"]/q["d"], q["so"]/q["e"], q["co"]/q["e"]
    u = (sl*co*x - so*y + cl*co*z, sl*so*x + co*y + cl*so*z, -cl*x + sl*z)
    size = sqrt(sum(c*c for c in u))
    return degrees(asin(max(-1, min(1, u[2]/size)))), degrees(atan2(u[1], u[0]))


def option(values, given, shape, single):
    if given == "array" and single is None:
        return np.array(values).reshape(shape)
    return values[single or 0]


def field(item):
    model = make(item)
    elems = item["elems"]
    count = len(elems)
    shape = (2, count//2) if item["form"] == "matrix" and count % 2 == 0 else (count,)
    suns = [sun_of(e, item["pole"]) for e in elems]
    index = [NAN if e["f"] == NAN_INDEX else F107*e["f"] for e in elems]
    fgiven, sgiven, tgiven, lgiven = item["given"]
    places = [location(e, item["cin"]) for e in elems]
    times = [time_of(e["q"]) for e in elems]

    def call(single):
        opts = {}
        if fgiven != "none":
            opts["f107"] = option(index, fgiven, shape, single)
        if sgiven != "default":
            one = {"lats": ("array", "scalar"), "lons": ("scalar", "array")}.get(sgiven, (sgiven, sgiven))
            opts["lat_sol"] = option([s[0] for s in suns], one[0], shape, single)
            opts["lon_sol"] = option([s[1] for s in suns], one[1], shape, single)
        if item["scale"] != NONE:
            opts["scale"] = item["scale"]
        if item["lo"] != NONE:
            opts["min_degree"] = item["lo"]
        if item["hi"] != NONE:
            opts["max_degree"] = item["hi"]
        time = option(times, tgiven, shape, single)
        if single is not None:
            place = places[single]
        else:
            place = np.array(places).reshape((*shape, 3)) if lgiven == "array" else places[0]
        return model.eval(time, place, item["cin"], item["cout"], **opts)

    if item["form"] == "single":
        rows = np.array([call(i) for i in range(count)])
        good = rows.shape == (count, 3)
    else:
        rows = np.asarray(call(None))
        good = rows.shape == (*shape, 3)
    if not good:
        return {"field": [[0]]*count, "shape": list(rows.shape)}
    return {"field": [assembly.integers(v, d) for v, d in zip(rows.reshape(-1, 3), item["dens"])]}


def fourier(item):
    coeff = np.array(item["coeff"], dtype="float64")
    at = np.array(item["at"], dtype="float64")
    how = item["how"]
    years, hours = at[:, 0]/24, at[:, 1]
    ns, np_ = coeff.shape[:2]
    if how == "fourier2d":
        out = fourier2d(years, hours, coeff, item["smin"], item["pmin"], SCALE_SEASONAL, SCALE_DIURNAL)
    elif how == "scaled":     # units of the parameters
        out = fourier2d(at[:, 0], at[:, 1]*3600, np.stack([coeff, 2*coeff]), item["smin"], item["pmin"],
                        SCALE_SEASONAL/24, SCALE_DIURNAL/3600)
        if not np.allclose(out[..., 1], 2*out[..., 0], atol=1e-9):
            out = out*np.nan
        out = out[..., 0]
    else:
        set_ = SparseSHCoefficientsMIO(
            np.array([[1, 0]], dtype="int32"), coeff[None],
            (item["pmin"], item["pmin"] + np_ - 1, item["smin"], item["smin"] + ns - 1),
            mjd2000_to_year_fraction=lambda t: t)
        if how == "query":
            out = set_(years, hours)[0][:, 1, 0]
        else:
            out = sheval2dfs(years, hours, [90.0, 0.0, RADIUS], coef_set=set_.get_f2fs_coeff_set(),
                             mode=POTENTIAL, coord_type_in=GEOCENTRIC_SPHERICAL)/RADIUS
    return {"sums": [int(v) for v in np.round(np.asarray(out)*1e6)]}


def close(a, b):
    size = np.abs(b).max()
    return int(a.shape == b.shape and bool((np.abs(a - b) <= 1e-9*size).all()))


def pair(degree, height):
    pole = (80.0, -72.0)
    return MIOPrimaryGeomagneticModel(
        DipoleMIOGeomagneticModel(evals.mio_coeff(degree, False), pole),
        DipoleMIOGeomagneticModel(evals.mio_coeff(degree, True), pole), height=height)


def side(item):
    model = pair(4, item["height"])
    bound = item["height"] + RADIUS
    place = convert(np.array([item["lat"], item["lon"], bound + item["shift"]]),
                    GEOCENTRIC_SPHERICAL, item["cin"])
    for _ in range(abs(item["steps"])):
        place[2] = np.nextafter(place[2], np.inf*item["steps"])
    radius = convert(place, item["cin"], GEOCENTRIC_SPHERICAL)[2]
    opts = {"f107": item["f107"]} if item["f107"] is not None else {}
    args = (5000.3, place, item["cin"], item["cout"])
    got = model.eval(*args, **opts)
    return {"order": int(np.sign(radius - bound)),
            "below": close(got, model.model_below_ionosphere.eval(*args, **opts)),
            "above": close(got, model.model_above_ionosphere.eval(*args, **opts))}


def test_product(height, ratio):
    """ MIO product with the given height of the ionosphere and Wolf ratio """
    path = os.path.join(
        os.path.dirname(eoxmagmod.__file__), "magnetic_model", "tests", "data", "TEST_MIO_SHA.txt")
    with open(path, encoding="ascii") as source:
        lines = source.read().split("\n")
    fields = lines[1].split()
    fields[8:10] = ["%.6f" % height, "%.6f" % ratio]
    lines[1] = " ".join(fields)
    copy = os.path.join(tempfile.mkdtemp(), "product.txt")
    with open(copy, "w", encoding="ascii") as target:
        target.write("\n".join(lines))
    return copy


def wolf(item):
    radius = 6900.0
    if item["loaded"]:
        path = test_product(item["loaded"], item["ratio"]*1e-5)
        if item["internal"]:
            model = load_model_swarm_mio_internal(path)
        else:
            model = load_model_swarm_mio_external(path, (None, True, False)[item["kind"]])
        radius = RADIUS + item["loaded"] + item["shift"]
    else:
        opts = {} if item["ratio"] == 1485 else {"wolf_ratio": item["ratio"]*1e-5}
        model = DipoleMIOGeomagneticModel(
            evals.mio_coeff(3, item["internal"]), (80.0, -72.0), **opts)
    args = (5000.3, [40.0, 20.0, radius])
    plain = model.eval(*args)
    scaled = model.eval(args[0], np.array([args[1]]*len(item["f"])), f107=np.array(item["f"], dtype="float64"))
    ratio = (scaled/plain)*1e5
    out = np.round(ratio)
    if np.abs(ratio - out).max() > 1e-3:
        out = out*0
    return {"ratio": [int(r[0]) if r[0] == r[1] == r[2] else 0 for r in out]}


def sheet(item):
    height = item["height"]
    pole = (80.0, -72.0)
    if item["loaded"]:
        model = load_model_swarm_mio_external(test_product(height, 0.01485))
    else:
        extent = (-1, 2, -2, 1)
        external = evals.mio_coeff(item["degree"], False, extent)
        terms, values = evals.coeff_values(item["degree"], (4, 4, 2), 3)
        internal = SparseSHCoefficientsMIO(
            terms, convert_external_mio_coeff(item["degree"], terms, values, height), extent,
            is_internal=True)
        model = MIOPrimaryGeomagneticModel(
            DipoleMIOGeomagneticModel(external, pole),
            DipoleMIOGeomagneticModel(internal, pole), height=height)
    place = np.array([[lat, lon, RADIUS + height] for lat, lon in item["places"]])
    times = 4000.0 + 71.3*np.arange(len(place))
    upper = place.copy()
    upper[:, 2] = np.nextafter(place[:, 2], np.inf)
    below, above = model.eval(times, place), model.eval(times, upper)
    size = np.abs(below).max() + np.abs(above).max()
    jump = np.abs(above - below)/size*1e6
    return {"normal": int(jump[:, 2].max()), "tangential": int(jump[:, :2].max())}


def default_sun(item):
    model = pair(3, 110.0)
    times = np.array(item["times"])
    dec, _, hour, _, _ = sunpos(times, 0.0, 0.0, rad=0)
    args = (times, [30.0, 40.0, item["radius"]])
    got = model.eval(*args)
    want = model.eval(*args, lat_sol=dec, lon_sol=-hour)
    turned = model.eval(*args, lat_sol=dec, lon_sol=-hour + 360.0)
    moved = model.eval(*args, lat_sol=dec, lon_sol=-hour + 20.0)
    return {"same": int(close(got, want) and close(turned, want) and not close(moved, want))}


def execute(item):
    return {"field": field, "fourier": fourier, "side": side, "wolf": wolf, "sheet": sheet,
            "sun": default_sun}[item["ev"]](item)

"""Loads models from written files of magnetospheric products. """
import os
import random
import shutil
import tempfile
import numpy as np
from spacepy import pycdf
import eoxmagmod
from eoxmagmod import sheval, GRADIENT, GEOCENTRIC_CARTESIAN
from eoxmagmod.magnetic_model import loader_mma
from files import whole, nonzero
from frames import unit as direction

CENTER = 730485            # 2000-01-01, days from 0000-01-01
DAY = 86400000
POINTS = np.array([[4000.0, -3500.0, 4600.0], [-1200.0, 500.0, -7000.0]])
NGP = (90 - 9.92, 287.78 - 360.0)
EPOCH, TT2000 = pycdf.const.CDF_EPOCH.value, pycdf.const.CDF_TIME_TT2000.value


def variables(fmt, kind, frame):
    """ names of the variables of the format read by the loader """
    name = "gh" if kind == "internal" else "qs"
    if fmt == "2c":
        return [("t_%s_%d" % (name, k), "nm_%s_%d" % (name, k), "%s_%d" % (name, k)) for k in (1, 2)]
    return [("t_" + name, "nm_" + name, name + "_" + frame)]


def every(fmt):
    if fmt == "2c":
        return variables(fmt, "internal", None) + variables(fmt, "external", None)
    return [v for k in ("internal", "external") for f in ("geo", "sm") for v in variables(fmt, k, f)]


def write(path, rnd, item, products):
    """ products: per set """
    contents = {}
    for names, product in zip(variables(item["format"], item["kind"], item["frame"]), products):
        contents[names[0]] = product["t"]
        contents[names[1]] = product["nm"]
        contents[names[2]] = product["v"]
    for time, names, values in every(item["format"]):
        if time not in contents:
            contents[time] = [0, 3, 7]
            contents[names] = [[1, 0], [3, -2]]
        if values not in contents:
            contents[values] = [[7000 + rnd.randint(0, 99) for _ in contents[names]] for _ in contents[time]]
    keys = sorted(contents)
    rnd.shuffle(keys)
    drop = rnd.choice(keys) if item["fault"] == "lost" else None
    if drop and drop not in sum(variables(item["format"], item["kind"], item["frame"]), ()):
        drop = variables(item["format"], item["kind"], item["frame"])[0][rnd.randrange(3)]
    cdf = pycdf.CDF(path, create=True)
    try:
        for key in keys:
            value = np.asarray(contents[key])
            if key == drop:
                continue
            if key.startswith("t_"):
                ctype = TT2000 if item["fault"] == "clock" else EPOCH
                cdf.new(key, type=ctype, recVary=True, dims=[len(value)])
                raw = (CENTER + item["day"])*float(DAY) + value*float(item["step"])
                cdf.raw_var(key)[0] = raw if ctype == EPOCH else raw.astype("int64")
            elif key.startswith("nm_"):
                shape = value.shape
                if item["nested"]:
                    cdf.new(key, type=pycdf.const.CDF_INT2, recVary=True, dims=list(shape))
                    cdf[key][0] = value
                else:
                    cdf.new(key, type=pycdf.const.CDF_INT4 if rnd.random() < 0.5 else pycdf.const.CDF_INT2,
                            recVary=True, dims=[2])
                    cdf[key][...] = value
            else:
                cdf.new(key, type=pycdf.const.CDF_DOUBLE, recVary=True, dims=list(value.shape))
                cdf[key][0] = value.astype("float64")
        cdf.attrs["TITLE"] = "synthetic"
    finally:
        cdf.close()


def files(item, folder):
    rnd = random.Random(item["seed"])
    paths = []
    for idx, products in enumerate(zip(*item["sets"])):
        path = os.path.join(folder, "%d.cdf" % idx)
        if item["fault"] and idx == item["which"]:
            if item["fault"] == "gone":
                pass
            elif item["fault"] == "text":
                with open(path, "w", encoding="ascii") as file_:
                    file_.write("no CDF file\n")
            else:
                write(path, rnd, item, products)
        else:
            write(path, rnd, {**item, "fault": ""}, products)
        paths.append(path)
    return paths


def rotation(lat, lon):
    z = direction(lat, lon)
    y = np.array([-np.sin(np.radians(lon)), np.cos(np.radians(lon)), 0.0])
    return np.array([np.cross(y, z), y, z]).T


def computed(coeff, time, matrix, internal):
    """ field of the coefficients in the frame of the given axes """
    values, degree = coeff(time)
    grad = sheval(POINTS @ matrix, values, GEOCENTRIC_CARTESIAN, GEOCENTRIC_CARTESIAN, mode=GRADIENT,
                  is_internal=bool(internal), degree=degree)
    return -np.asarray(grad) @ matrix.T


def evaluates(model, coeff, times, matrix):
    for time in times:
        expected = computed(coeff, time, matrix, coeff.is_internal)
        result = model.eval(time, POINTS, GEOCENTRIC_CARTESIAN, GEOCENTRIC_CARTESIAN)
        if not np.abs(result - expected).max() <= 1e-9*(np.abs(expected).max() + 1e-12):
            return 0
    batch = model.eval(np.array(times), np.array([POINTS[0]]*len(times)), GEOCENTRIC_CARTESIAN, GEOCENTRIC_CARTESIAN)
    single = [model.eval(t, POINTS[0], GEOCENTRIC_CARTESIAN, GEOCENTRIC_CARTESIAN) for t in times]
    return int(np.allclose(batch, single, rtol=1e-9, atol=1e-9))


def execute(item):
    folder = tempfile.mkdtemp(prefix="mma-")
    try:
        return load(item, folder)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def load(item, folder):
    paths = files(item, folder)
    name = "swarm_mma_%s_%s%s" % (item["format"], item["frame"] + "_" if item["frame"] else "", item["kind"])
    load_coeff = getattr(loader_mma, "load_coeff_" + name)
    load_model = getattr(eoxmagmod, "load_model_" + name)
    options, pole = {}, None
    if item["format"] == "2c":
        pole = NGP
        if item["pole"]:
            pole = tuple(item["pole"])
            options = {"lat_ngp": pole[0], "lon_ngp": pole[1]}
    outcomes = []
    for call, kwargs in ((load_model, options), (load_coeff, {})):
        try:
            outcomes.append(call(*paths, **kwargs))
        except Exception as error:  # pylint: disable=broad-except
            outcomes.append(error)
    model, coeff = outcomes
    if isinstance(coeff, Exception) or isinstance(model, Exception):
        return {"ok": int(not (isinstance(coeff, Exception) and isinstance(model, Exception))),
                "valid": [0, 0], "degree": -1, "low": -1, "internal": -1, "model": 0, "outside": 0, "probes": [],
                "error": repr(coeff)[:100]}
    if min(len({t for p in products for t in p["t"]}) for products in item["sets"]) < 2:
        return {"ok": 1}        # one moment is not a time-series
    def moment(value):
        return item["day"] + 0.5*value*item["step"]/DAY
    probes = [{"at": at, "v": nonzero(coeff(moment(at))[0], item["unit"])} for at in item["probes"]]
    start, end = model.validity
    step = item["step"]/DAY
    valid = [whole((x - item["day"])/step, 1) if np.isfinite(x) else whole(x, 1) for x in (start, end)]
    outside = np.array([start - 0.25*step, end + 0.25*step, start - 3*step, end + 40000])
    inside = [moment(at) for at in item["probes"] if start <= moment(at) <= end][:5] + [start, end]
    matrix = np.eye(3) if pole is None else rotation(*pole)
    out = all(np.isnan(model.eval(t, POINTS)).all() for t in outside)
    out = out and np.isnan(model.eval(outside, np.array([POINTS[0]]*4))).all()
    return {"ok": 1, "valid": valid, "degree": int(coeff.degree), "low": int(coeff.min_degree),
            "internal": int(coeff.is_internal), "outside": int(out),
            "model": int(evaluates(model, coeff, inside, matrix)
                         and (float(start), float(end)) == tuple(map(float, coeff.validity))
                         and (model.degree, model.min_degree) == (coeff.degree, coeff.min_degree)),
            "probes": probes}

""" Time conversions. """
from datetime import datetime, timedelta

import numpy as np
from eoxmagmod import (
    decimal_year_to_mjd2000, mjd2000_to_decimal_year, mjd2000_to_year_fraction,
)
from eoxmagmod import time_util

from coeffs import OFF, ERR, guarded

SCALE = 16*365*366


def exact(x):
    x = float(x)
    return int(x) if abs(x) < 5e8 and x == int(x) else OFF


def near(x, tol=1e-2):
    x = float(x)
    if not abs(x) < 2.1e9:
        return OFF
    return int(round(x)) if abs(x - round(x)) < tol else OFF


def years(item):
    ys = np.arange(item["y0"], item["y0"] + item["count"])
    start = decimal_year_to_mjd2000(ys.astype("float64"))
    back = mjd2000_to_decimal_year(start)
    if item["scalar"]:
        start = [decimal_year_to_mjd2000(float(y)) for y in ys]
        back = [mjd2000_to_decimal_year(float(t)) for t in start]
    start = np.asarray(start)
    dts = [exact(time_util.datetime_to_decimal_year(datetime(int(y), 1, 1)))
           for y in ys] if ys[0] >= 1 and ys[-1] <= 9998 else []
    return {
        "start": [exact(x) for x in start], "back": [exact(x) for x in back],
        "frac": [exact(x) for x in mjd2000_to_year_fraction(start)],
        "before": [exact(np.floor(x)) for x in mjd2000_to_decimal_year(start - 2.0**-10)],
        "dt": dts,
    }


def days(item):
    y = item["y"]
    start = float(item["start"])
    offset = np.array([k + q/16 for k, q in item["items"]])
    mjd = start + offset
    dy = np.asarray(mjd2000_to_decimal_year(mjd))
    sixt = decimal_year_to_mjd2000(y + np.arange(16)/16.0)
    dts = []
    if 1583 <= y <= 9998:
        dts = [near((time_util.datetime_to_decimal_year(
            datetime(y, 1, 1) + timedelta(seconds=86400*x)) - y)*SCALE) for x in offset]
    return {
        "dy": [near((x - y)*SCALE) for x in dy],
        "frac": [near(x*SCALE) for x in mjd2000_to_year_fraction(mjd)],
        "dt": dts,
        "inv": [near(16*x, 1e-4) for x in decimal_year_to_mjd2000(dy)],
        "sixt": [near(16*x, 1e-4) for x in sixt],
    }


def instants(item):
    """ calendar instants with a resolution of 1/64 of second """
    y = item["y"]
    scale = 64.0*86400*(datetime(y + 1, 1, 1) - datetime(y, 1, 1)).days
    dts = [datetime(y, m, d, s//3600, s//60 % 60, s % 60, 15625*u)
           for m, d, s, u in item["items"]]
    mjd = np.array([
        (t - datetime(2000, 1, 1)).days + (s*64 + u)/(86400*64.0)
        for t, (_, _, s, u) in zip(dts, item["items"])])
    return {
        "dt": [near((time_util.datetime_to_decimal_year(t) - y)*scale, 0.1) for t in dts],
        "dy": [near((x - y)*scale, 0.1) for x in np.asarray(mjd2000_to_decimal_year(mjd))],
        "frac": [near(x*scale, 0.1) for x in np.asarray(mjd2000_to_year_fraction(mjd))],
    }


def order(item):
    """ times ascending (separated at least by a microday) """
    times = np.array(item["times"])
    bad = 0
    dy = np.asarray(mjd2000_to_decimal_year(times))
    step = np.diff(times)
    # distinguishable in decimal years
    visible = step > 4*366*np.spacing(np.abs(dy[1:]) + 1)
    bad += int((np.diff(dy) < 0).sum()) + int((np.diff(dy)[visible] <= 0).sum())
    ext = np.sort(np.concatenate([dy, dy + 1e-9, np.floor(dy), np.ceil(dy)]))
    out = np.asarray(decimal_year_to_mjd2000(ext))
    outside = (ext < 1582.9) | (ext >= 1583)     # the short year of the reform
    bad += int((np.diff(out[outside]) < 0).sum())
    strict = np.diff(ext[outside]) > 1e-10
    bad += int((np.diff(out[outside])[strict] <= 0).sum())
    frac = np.asarray(mjd2000_to_year_fraction(times))
    bad += int(((frac < 0) | (frac > 1)).sum())
    back = np.asarray(decimal_year_to_mjd2000(dy))
    tol = 366*2*np.spacing(np.abs(dy) + 1) + 2*np.spacing(np.abs(times))
    trip = int((np.abs(back - times) > tol).sum())
    whole = np.floor(dy)
    near_end = np.abs(dy - np.round(dy)) < 1e-9
    trip += int((np.abs(frac - (dy - whole)) > 1e-9)[~near_end].sum())
    return {"order": bad, "roundtrip": trip}


FUNCTIONS = {
    "decimal_year_to_mjd2000": decimal_year_to_mjd2000,
    "mjd2000_to_decimal_year": mjd2000_to_decimal_year,
    "mjd2000_to_year_fraction": mjd2000_to_year_fraction,
}


def equal(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return 0
    with np.errstate(invalid="ignore"):
        return int(bool(((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 4*np.spacing(np.abs(b)))).all()))


def layout(item):
    function = FUNCTIONS[item["function"]]
    data = np.array([{"nan": np.nan, "inf": np.inf, "-inf": -np.inf}.get(x, x)
                     for x in item["data"]], dtype="float64")
    n = len(data)
    ref = np.array([float(function(float(x))) for x in data])
    backup = data.copy()
    same = [
        equal(function(data), ref), equal(function(list(data)), ref),
        equal(function(tuple(data)), ref), equal(function(data[::-1]), ref[::-1]),
        equal(function(data[::2]), ref[::2]), equal(function(data[1::3]), ref[1::3]),
        equal(function(data[:12].reshape(3, 4)), ref[:12].reshape(3, 4)),
        equal(function(data[:12].reshape(3, 4).T), ref[:12].reshape(3, 4).T),
        equal(function(np.asfortranarray(data[:12].reshape(2, 2, 3))),
              ref[:12].reshape(2, 2, 3)),
        equal(function(data[:12].reshape(2, 3, 2)[:, ::-1, ::-1]),
              ref[:12].reshape(2, 3, 2)[:, ::-1, ::-1]),
        equal(function(np.repeat(data, 2)), np.repeat(ref, 2)),
        equal(function(data[:0]), ref[:0]),
        equal(function(np.broadcast_to(data[3], (4, 2))), np.broadcast_to(ref[3], (4, 2))),
        equal(function(data.astype(">f8")), ref),
        equal(data, backup),
        equal(function(data[5]), ref[5]),
    ]
    whole = np.array([np.floor(x) for x in data if np.isfinite(x)])
    refw = np.array([float(function(x)) for x in whole])
    same += [equal(function(whole.astype("int64")), refw),
             equal(function(whole.astype("int32")), refw),
             equal(function(int(whole[0])), refw[0])]
    special = [int(np.isnan(float(function(np.nan))))]
    if item["function"] != "mjd2000_to_year_fraction":
        special += [int(float(function(np.inf)) == np.inf),
                    int(float(function(-np.inf)) == -np.inf)]
    assert n >= 12
    return {"same": same, "special": special}


def simple(item):
    quarters = np.array(item["items"])
    dy = time_util.mjd2000_to_decimal_year_simple(quarters*365.25/4)
    frac = time_util.mjd2000_to_year_fraction_simple(quarters*365.25/4)
    mjd = time_util.decimal_year_to_mjd2000_simple(2000 + quarters/4)
    return {"dy": [exact(4*x) for x in dy], "frac": [exact(4*x) for x in frac],
            "mjd": [exact(16*x) for x in mjd]}


def edges(item):
    """ both sides of the year start """
    out = []
    base, length = float(item["start"]), item["length"]
    for side, size in item["steps"]:
        step = max(size, 2*np.spacing(abs(base)))
        mjd = base + side*step
        actual = abs(mjd - base)
        frac, dy = float(mjd2000_to_year_fraction(mjd)), float(mjd2000_to_decimal_year(mjd))
        days_ = (frac if side >= 0 else 1 - frac)*length[side < 0]
        off = abs(days_ - actual)
        out.append({"side": side, "inside": int(0 <= frac < 1),
                    "year": int(np.sign(dy - item["y"])) if side else int(dy != item["y"]),
                    "close": int(abs(dy - item["y"]) < 0.1),
                    "off": int(min(off*1e12, 2e9)) if np.isfinite(off) else OFF,
                    "spacing": int(np.ceil((np.spacing(abs(base)) + 1e-13)*4e12))})
    return {"steps": out}


def execute(item):
    fallback = {
        "edges": {"steps": [{"side": 0, "inside": 0, "year": 9, "close": 0, "off": OFF, "spacing": 0}]},
        "years": {"start": [ERR], "back": [ERR], "frac": [ERR], "before": [ERR], "dt": []},
        "days": {"dy": [ERR], "frac": [ERR], "dt": [], "inv": [ERR], "sixt": [ERR]},
        "instants": {"dt": [ERR], "dy": [ERR], "frac": [ERR]},
        "order": {"order": ERR, "roundtrip": ERR},
        "layout": {"same": [0], "special": [0]},
        "simple": {"dy": [ERR]*99, "frac": [ERR]*99, "mjd": [ERR]*99},
    }
    return guarded(lambda: globals()[item["ev"]](item), fallback[item["ev"]])

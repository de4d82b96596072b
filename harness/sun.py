"""Sub-solar points, magnetic local and universal times. """
import numpy as np
from buffers import Buffers
from eoxmagmod import eval_subsol, eval_mlt, mjd2000_to_magnetic_universal_time, data
from eoxmagmod.magnetic_model.loader_shc import load_coeff_shc
from eoxmagmod.magnetic_time import get_subsol
from eoxmagmod.solar_position import sunpos

NONE = -1
INSIDE = {"subsol": 2, "mlt": 3, "ephemeris": 4, "ut": 4}
POLE = 80.25, -72.5
_CACHE = {}


def ints(values, scale, limit=2000000000):
    arr = np.nan_to_num(np.asarray(values, dtype="float64")*scale, nan=limit, posinf=limit, neginf=-limit)
    return [int(v) for v in np.round(np.clip(arr, -limit, limit)).ravel()]


def wrap(x):
    return (np.asarray(x) + 180) % 360 - 180


def degrees(tri):
    return float(np.degrees(np.arctan2(tri[0], tri[1])))


def pole(time):
    """ dipole pole of IGRF """
    if "igrf" not in _CACHE:
        _CACHE["igrf"] = load_coeff_shc(data.IGRF14, interpolate_in_decimal_years=True)
    coeff, _ = _CACHE["igrf"](time)
    g10, g11, h11 = coeff[1, 0], coeff[2, 0], coeff[2, 1]
    return np.degrees(np.arctan2(-g10, np.hypot(g11, h11))), np.degrees(np.arctan2(-h11, -g11))


def times(item):
    """ days and 1/5760 of days, -1 the last number before the day """
    return np.array([d + q/5760 if q >= 0 else np.nextafter(d, -1e9) for d, q in item["t"]])


def execute(item):
    ev = item["ev"]
    if ev == "memo":
        return execute_memo(item)
    if ev == "walk":
        time = times(item)
        lat, lon = eval_subsol(time)
        dec, _, hour, _, _ = sunpos(time, 0, 0, rad=0)
        return {"lat": ints(lat, 1e4), "lon": ints(lon % 360, 1e4), "dlat": ints(lat - dec, 1e4),
                "dlon": ints(wrap(lon + hour), 1e4), "range": int(bool((np.abs(lon) <= 180).all()))}
    if ev == "mlt":
        qdlon = np.array(item["q"])/8
        time = times(item)[0]
        mlt = eval_mlt(qdlon, np.full(qdlon.shape, time)) if item["form"] == "array" else np.array(
            [eval_mlt(q, time) for q in qdlon])
        mut = NONE
        if item["pole"]:
            latp, lonp = pole(time)
            mut = ints(mjd2000_to_magnetic_universal_time(time, latp, lonp, *eval_subsol(time)), 1e4)[0]
        return {"mlt": ints(mlt, 1e4), "mut": mut, "range": int(bool(((mlt >= 0) & (mlt < 24)).all()))}
    if ev == "mut":
        q, s = item["pole"], item["place"]
        latp, lonp = degrees([q["sl"], q["cl"]]), degrees([q["so"], q["co"]]) + item["turn"]
        lats, lons = degrees(s[0]), degrees(s[1]) + 360*item["turn2"]
        form = item["form"]
        time = 123.25
        if form != "scalar":
            time = np.full(3, time)
            lats, lons = (np.full(3, x) for x in (lats, lons))
        mut = np.atleast_1d(mjd2000_to_magnetic_universal_time(time, latp, lonp, lats, lons))
        angle = (12 - mut)*np.pi/12
        inside = (mut >= 0) & (mut <= 24)
        return {"dir": ints([np.cos(angle[-1]), np.sin(angle[-1])], 1e4),
                "range": int(bool(inside.all()) and len(set(mut.tolist())) == 1)}
    if ev == "default":
        time = times(item)
        dec, _, hour, _, _ = sunpos(time, 0, 0, rad=0)
        lat, lon = get_subsol(time)
        latp, lonp = item["pole"]
        ref = mjd2000_to_magnetic_universal_time(time, latp, lonp, dec, -hour)
        outs = [mjd2000_to_magnetic_universal_time(time, latp, lonp),
                mjd2000_to_magnetic_universal_time(time, latp, lonp, lat_sol=10.0),
                mjd2000_to_magnetic_universal_time(time, latp, lonp, lon_sol=10.0),
                np.array([mjd2000_to_magnetic_universal_time(t, latp, lonp) for t in time])]
        ok = np.abs(lat - dec).max() < 1e-9 and np.abs(wrap(lon + hour)).max() < 1e-9
        return {"same": int(bool(ok and all(np.shape(x) == np.shape(ref) and np.abs(x - ref).max() < 1e-9
                                            for x in outs)))}
    time = np.array([float.fromhex(item["time"]) if isinstance(item["time"], str) else item["time"]])
    if item["form"] == "scalar":
        time = time[0]
    elif item["form"] == "middle":
        time = np.array([1.5, time[0], 100.5])
    if item["func"] == "subsol":
        res = np.stack([np.atleast_1d(x) for x in eval_subsol(time)])
    else:
        res = np.atleast_1d(eval_mlt(np.full(np.shape(time), 10.0), time))[None]
    if item["form"] == "middle":
        if not np.isfinite(res[:, ::2]).all():
            return {"what": 2}
        res = res[:, 1:2]
    return {"what": 0 if np.isfinite(res).all() else 1 if np.isnan(res).all() else 2}


def execute_memo(item):
    records = []
    buffers = Buffers()
    for form, func, idx in item["calls"]:
        pts = [item["points"][i] for i in idx]
        qdlon, time = (np.array([p[k] for p in pts], dtype="float64") for k in range(2))
        if form == "scalar":
            qdlon, time = qdlon[0], time[0]
        elif form == "reversed":
            qdlon, time = qdlon[::-1].copy()[::-1], time[::-1].copy()[::-1]
        elif form == "strided":
            qdlon, time = (np.repeat(x, 2)[::2] for x in (qdlon, time))
        elif form == "refilled":
            qdlon, time = buffers.put("q", qdlon), buffers.put("t", time)
        try:
            if func == "mlt":
                res = [eval_mlt(qdlon, time)*15]
            elif func == "ut":
                res = [mjd2000_to_magnetic_universal_time(time, *POLE)*15]
            else:
                res = (eval_subsol if func == "subsol" else get_subsol)(time)
        except Exception:  # pylint: disable=broad-except
            records.append({"group": item["group"], "form": form, "keys": [[func, i] for i in idx],
                            "values": [None]*len(idx), "nans": [0]*len(idx), "shape": 1})
            continue
        shape = int(all(np.shape(x) == np.shape(time) for x in res))
        cols = [f(np.radians(np.ravel(x))) for x in res for f in (np.cos, np.sin)]
        records.append({
            "group": item["group"], "form": form, "keys": [[func, i] for i in idx],
            "values": [[float(v) for v in row] for row in np.stack(cols, axis=1)],
            "nans": [int(not p[INSIDE[func]]) for p in pts], "shape": shape})
    return {"records": records}

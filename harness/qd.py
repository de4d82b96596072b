"""Quasi-dipole evaluations with synthetic and real coefficient files. """
import os
import shutil
import tempfile
import numpy as np
from buffers import Buffers
from eoxmagmod import eval_qdlatlon, eval_qdlatlon_with_base_vectors
from eoxmagmod import data

REQ = 6378.1370
FLAT = 1/298.257223563
E2 = FLAT*(2 - FLAT)
RE = REQ*(1 - FLAT/3)
RAD = np.pi/180
NAN_TIME = -1000000000
FOLDER = tempfile.mkdtemp(prefix="qd")
REAL = {"2015": data.APEX_2015, "2020": data.APEX_2020, "2025": data.APEX_2025, "2030": data.APEX_2030}


def write(path, file):
    """ apex file of the given matrices """
    nmax, mmax = file["size"]
    lmax = len(file["mats"][0]) - 1
    ntermsh = mmax*(2*nmax - mmax + 1) + nmax + 1
    coeff = np.zeros((6, len(file["epochs"]), lmax + 1, ntermsh))
    p00 = 0.5**0.5
    cosine = nmax + 1
    for k, mats in enumerate(file["mats"]):
        for l, mat in enumerate(mats):
            for i in range(3):
                coeff[i, k, l, 0] = mat[i][3]/p00
                coeff[i, k, l, 1] = mat[i][2]/(p00*3**0.5)
                coeff[i, k, l, cosine] = mat[i][0]/(p00*1.5**0.5)
                coeff[i, k, l, cosine + 1] = mat[i][1]/(p00*1.5**0.5)
    with open(path, "w") as out:
        out.write("%d %d %d %d %d\n" % (len(file["epochs"]), nmax, mmax, lmax, (lmax + 1)*ntermsh))
        out.write(" ".join("%d.0" % e for e in file["epochs"]) + "\n")
        for value in coeff.ravel():
            out.write("%.17g\n" % value)


def corrupt(path, why, good):
    """ file which cannot be loaded """
    if why == "missing":
        if os.path.exists(path):
            os.remove(path)
        return
    if why == "folder":
        os.makedirs(path, exist_ok=True)
        return
    if why == "empty":
        open(path, "w").close()
        return
    write(path, good)
    with open(path) as src:
        text = src.read()
    lines = text.split("\n")
    if why == "short":
        lines = lines[:len(lines)*2//3]
    elif why == "header":
        lines[0] = "1 1 1"
        lines = lines[:1]
    elif why == "letters":
        lines[len(lines)//2] = "abc"
    elif why == "dims":
        fields = lines[0].split()
        fields[4] = str(int(fields[4]) - 1)
        lines[0] = " ".join(fields)
    elif why == "negative":
        fields = lines[0].split()
        fields[0] = "-1"
        lines[0] = " ".join(fields)
    elif why == "nodegree":
        lines[0] = "2 0 0 0 1"
    with open(path, "w") as out:
        out.write("\n".join(lines))


def path_of(name):
    """ path of the given name, long names differ at the end """
    if name.startswith("limit"):       # the longest accepted path
        folder = FOLDER
        while len(folder) < 800:
            folder = os.path.join(folder, "y"*120)
        os.makedirs(folder, exist_ok=True)
        return os.path.join(folder, name.rjust(1023 - len(folder) - 1, "z"))
    if name.startswith("long"):
        folder = os.path.join(FOLDER, *["x"*120 for _ in range(3)])
        os.makedirs(folder, exist_ok=True)
        return os.path.join(folder, name)
    return os.path.join(FOLDER, name)


def geocentric(point):
    lat = np.arctan2(point["lat"][0], point["lat"][1])
    lon = np.degrees(np.arctan2(point["lon"][0], point["lon"][1])) + 360*point.get("turn", 0)
    h = RE*(point["rho"] - 1)
    s, c = np.sin(lat), np.cos(lat)
    rc = REQ/np.sqrt(1 - E2*s*s)
    x, z = (rc + h)*c, (rc*(1 - E2) + h)*s
    r, j = (h + rc)/(RE + h), (h + (1 - E2)*rc/(1 - E2*s*s))/(RE + h)
    gclat = np.degrees(np.arctan2(z, x)) if abs(point["lat"][1]) else 90.0*np.sign(s)
    return gclat, lon, np.hypot(x, z), r, j


def year(time):
    if time == NAN_TIME:
        return np.nan
    if abs(time) >= 100000000:
        return np.inf*np.sign(time)
    return 2000 + time/1461


def ints(values, scale, limit=45000):
    return [int(v) for v in np.round(np.clip(np.nan_to_num(np.asarray(values)*scale, nan=limit), -limit, limit))]


def evaluate(item, path):
    points = item["points"]
    geo = [geocentric(p) for p in points]
    lat, lon, rad = (np.array([g[i] for g in geo]) for i in range(3))
    time = np.array([year(p["t"]) for p in points])
    if item.get("form") == "scalar":
        lat, lon, rad, time = (float(x[0]) for x in (lat, lon, rad, time))
    calls = [lambda: eval_qdlatlon(lat, lon, rad, time, path),
             lambda: eval_qdlatlon_with_base_vectors(lat, lon, rad, time, path)]
    kinds = item.get("calls", [item.get("base", 0)])
    out = {}
    for kind in kinds:
        out[kind] = [np.atleast_1d(x) for x in calls[kind]()]
    return geo, out


def execute(item):
    if item["ev"] == "memo":
        return execute_memo(item)
    if item["ev"] == "history":
        return {"calls": [execute_call(call) for call in item["calls"]]}
    return execute_call(item)


def execute_call(item):
    path = path_of(item["name"])
    if item["ev"] == "refused":
        corrupt(path, item["why"], item["file"])
        try:
            _, out = evaluate(item, path)
        except (IOError, RuntimeError, ValueError):
            return {"what": 0}
        finally:
            if item["why"] == "folder":
                shutil.rmtree(path)
        values = np.concatenate(next(iter(out.values())))
        return {"what": 1 if np.isnan(values).all() else 2}
    if not os.path.exists(path):
        write(path, item["file"])
    geo, out = evaluate(item, path)
    first = out[item["calls"][0]]
    same = all(np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True) for o in out.values()
               for x, y in zip(o[:2], first[:2]))
    result = out.get(1, first)
    if any(x.shape != result[0].shape for x in result) or result[0].ndim != 1:
        return {"what": 1, "out": [], "same": 0}
    rows = []
    for i, (_, _, _, r, j) in enumerate(geo):
        values = np.array([x[i] for x in result])
        nans = np.isnan(values)
        qlat, qlon = values[:2]*RAD
        sl, cl, so, co = np.sin(qlat), np.cos(qlat), np.sin(qlon), np.cos(qlon)
        row = {"nan": 1 if nans.all() else 2 if nans.any() else 0,
               "q": ints([cl*co, cl*so, sl], 1e4), "n": ints([-sl*co, -sl*so, cl], 1e4),
               "e": ints([-so, co, 0], 1e4)}
        if len(values) > 2:
            row["f"] = ints(values[2:6]*[j, r, j, r], 1e3)
            row["g"] = ints(values[2:6], 1e3) + ints(values[6:7], 1e3, 9e8)
        rows.append(row)
    return {"what": 0, "out": rows, "same": int(same)}


def execute_memo(item):
    """ histories of calls with the real files """
    records = []
    buffers = Buffers()
    for form, name, base, idx in item["calls"]:
        pts = [item["points"][i] for i in idx]
        lat, lon, rad, time = (np.array([p[k] for p in pts], dtype="float64") for k in range(4))
        if form == "scalar":
            lat, lon, rad, time = lat[0], lon[0], rad[0], time[0]
        elif form == "turn":
            lon = lon + 360.0
        elif form == "back":
            lon = lon - 360.0
        func = buffers.wrap(eval_qdlatlon_with_base_vectors if base else eval_qdlatlon)
        try:
            res = func(lat, lon, rad, time, REAL[name])
        except Exception:  # pylint: disable=broad-except
            records.append({"group": item["group"], "form": form, "keys": [[name, base, i] for i in idx],
                            "values": [None]*len(idx), "nans": [0]*len(idx), "shape": 1})
            continue
        shape = int(all(np.shape(x) == np.shape(lat) for x in res))
        res = np.stack([np.ravel(x) for x in res], axis=1)
        # continuous quantities: unit vectors instead of angles
        qlat, qlon = res[:, 0]*RAD, res[:, 1]*RAD
        uni = np.stack([np.cos(qlat)*np.cos(qlon), np.cos(qlat)*np.sin(qlon), np.sin(qlat)], axis=1)
        for columns, tag in ((uni, "q"), (res[:, 2:], "f")):
            if not columns.shape[1]:
                continue
            records.append({
                "group": item["group"], "form": form,
                "keys": [[name, tag, i] for i in idx],
                "values": [[float(v) for v in row] for row in columns],
                "nans": [int(np.isnan(pt[3])) for pt in pts],
                "shape": shape})
    return {"records": records}

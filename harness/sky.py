"""Positions of the Sun seen on walks. """
import math
import random
import numpy as np
from buffers import Buffers
from eoxmagmod.solar_position import sunpos, sunpos_original

NONE = 999999999


def ints(values, scale):
    arr = np.asarray(values, dtype="float64")*scale
    return [NONE if not math.isfinite(v) or abs(v) >= NONE else int(round(v)) for v in arr.ravel()]


def almanac(days):
    """ low precision formulas of the Astronomical Almanac, J2000.0 is the noon of MJD2000 0 """
    n = np.asarray(days) - 0.5
    mean = 280.460 + 0.9856474*n
    anomaly = np.radians(357.528 + 0.9856003*n)
    ecliptic = np.radians(mean + 1.915*np.sin(anomaly) + 0.020*np.sin(2*anomaly))
    tilt = np.radians(23.439 - 4e-7*n)
    ra = np.degrees(np.arctan2(np.cos(tilt)*np.sin(ecliptic), np.cos(ecliptic))) % 360
    return np.degrees(np.arcsin(np.sin(tilt)*np.sin(ecliptic))), ra


def obliquity(days):
    """ true obliquity of the ecliptic, main term of the nutation """
    n = days - 0.5
    return 23.4392911 - 0.0130042*n/36525 + 9.20/3600*math.cos(math.radians(125.04452 - 0.0529538083*n))


def seen(values, tri, rad, days):
    dec, ra, ha, az, zen = (float(v) for v in values)
    undefined = int(not all(map(math.isfinite, (dec, ra, ha, az, zen))))
    d, r, h, a, z = (math.radians(v) for v in (dec, ra, ha, az, zen))
    sin, cos = (lambda x: math.sin(x) if math.isfinite(x) else math.nan), (lambda x: math.cos(x) if math.isfinite(x) else math.nan)
    alm = almanac(days)
    out = dict(zip(("dec", "ra", "ha", "az", "zen"), ints((dec, ra, ha, az, zen), 1e6)))
    out.update(
        undefined=undefined, rad=int(rad), sinz=ints(sin(z), 1e4)[0],
        eq=ints((cos(d)*cos(h), cos(d)*sin(h), sin(d)), 1e7), hor=ints((sin(z)*cos(a), sin(z)*sin(a), cos(z)), 1e7),
        tilt=ints((math.degrees(math.atan2(sin(d)*math.copysign(1, sin(r)), abs(cos(d)*sin(r)))) if abs(sin(r)) > 0.3 else obliquity(days), obliquity(days)), 1e6), alm=ints(alm, 1e6))
    return out


def latitude(tri):
    return 90.0*tri[0] if tri[1] == 0 else math.degrees(math.atan2(tri[0], tri[1]))


_BUFFERS = Buffers()
_SUNPOS, _ORIGINAL = _BUFFERS.wrap(sunpos), _BUFFERS.wrap(sunpos_original)


def evaluate(other, time, lat, lon, rad, dtt):
    if other:
        return _ORIGINAL(time, lat, lon, rad, dtt, 0.0, 0.0)
    return _SUNPOS(time, lat, lon, rad, dtt)


def walk(item):
    rnd = random.Random(item["seed"])
    places = item["places"]
    state = {"q": 0, "k": 0, "e": 0, "place": 0, "rad": 0, "other": 0}
    states = [dict(state)]
    for kind, n in item["walk"]:
        if kind in ("wait", "shift"):
            state["q"] += n
        if kind == "correct":
            state["k"] += n
        if kind == "shift":
            state["k"] -= n
        if kind == "travel":
            state["e"] += n
        if kind == "turn":
            state["e"] += 8*n
        if kind == "move":
            state["place"] = (state["place"] + n) % len(places)
        if kind == "radius":
            state["rad"] = item["rad"] - state["rad"]
        if kind == "other":
            state["other"] = 1 - state["other"]
        states.append(dict(state))
    base = item["day"] + item["quarters"]/96
    time = np.array([base + s["q"]/4 for s in states])
    dtt = np.array([item["dtt"] + 21600.0*s["k"] for s in states])
    lat = np.array([latitude(places[s["place"]]) for s in states])
    lon = np.array([item["lon"] + 45.0*s["e"] for s in states])
    rad = np.array([float(s["rad"]) for s in states])
    other = np.array([s["other"] for s in states])
    out = np.empty((len(states), 5))
    for kind in (0, 1):
        mask = other == kind
        if mask.any():
            form = (-1, 1) if rnd.random() < 0.5 else (1, -1, 1)
            out[mask] = np.stack([np.asarray(x).ravel() for x in evaluate(
                kind, *(a[mask].reshape(form) for a in (time, lat, lon, rad, dtt)))], axis=-1)
    lines, obs = [], []
    for i, s in enumerate(states):
        tri = places[s["place"]]
        obs.append(seen(out[i], tri, s["rad"], base + (s["q"] + s["k"])/4))
        lines.append({"ev": "see", "time": item["quarters"] + 24*s["q"], "lon": item["lon"] + 45*s["e"], "lat": tri, "clock": s["k"],
                      "rad": s["rad"], "obs": obs[-1]})
        if i:
            kind, n = item["walk"][i - 1]
            lines.append({"ev": "step", "act": kind, "n": n, "p": obs[i - 1], "obs": obs[i]})
    i = rnd.randrange(len(states))
    single = seen(evaluate(int(other[i]), *(float(a[i]) for a in (time, lat, lon, rad, dtt))), None, rad[i],
                  base + (states[i]["q"] + states[i]["k"])/4)
    lines.append({"ev": "step", "act": "again", "n": 0, "p": obs[i], "obs": single})
    return {"lines": lines}


def overhead(item):
    time = np.array(item["times"])
    call = sunpos if item["other"] == 0 else lambda *a: sunpos_original(*a, 0.0, 20.0)
    dec, _, ha, _, _ = call(time, 0.0*time, 0.0*time, 0.0, 0.0)
    _, _, ha1, _, up = call(time, dec, -ha, item["rad"], 0.0)
    _, _, _, _, down = call(time, -dec, 180 - ha, item["rad"], 0.0)
    return {"lines": [{"ev": "overhead", "obs": {
        "up": ints(up, 1e6), "down": ints(down, 1e6), "ha": ints(ha1, 1e6),
        "undefined": int(not (np.isfinite(up).all() and np.isfinite(down).all()))}}]}


def gaze(item):
    """ near the points below and opposite to the Sun, next to the poles and elsewhere """
    time = np.array(item["times"])
    call = sunpos if item["other"] == 0 else lambda *a: sunpos_original(*a, 0.0, 20.0)
    dec, _, ha, _, _ = (np.asarray(x) for x in call(time, 0.0*time, 0.0*time, 0.0, 0.0))
    lines = []
    lat, lon = np.array(item["lat"]), np.array(item["lon"])
    if item["kind"] == "below":
        lat, lon = lat + dec, lon - ha
    if item["kind"] == "opposite":
        lat, lon = lat - dec, lon + 180 - ha
    if item["kind"] == "side":
        lon = lon - ha
    lat = np.clip(lat, -90, 90)
    _, _, ha1, az, zen = (np.asarray(x) for x in call(time, lat, lon, 0.0, 0.0))
    d, h, a, z, p = (np.radians(x) for x in (dec, ha1, az, zen, lat))
    for i in range(len(time)):
        values = [np.cos(d[i])*np.cos(h[i]), np.cos(d[i])*np.sin(h[i]), np.sin(d[i]), np.sin(z[i])*np.cos(a[i]), np.sin(z[i])*np.sin(a[i]), np.cos(z[i])]
        # the longitude counted from the meridian below the Sun
        turn = np.radians(lon[i] + ha[i])
        lines.append({"ev": "gaze", "lat": ints([np.sin(p[i]), np.cos(p[i])], 1e8), "lon": ints([np.sin(turn), np.cos(turn)], 1e8), "obs": {
            "undefined": int(not np.isfinite(values).all()), "eq": ints(values[:3], 1e8), "hor": ints(values[3:], 1e8),
            "ha": ints([np.sin(h[i]), np.cos(h[i])], 1e8)}})
    return {"lines": lines}


def refraction(item):
    base = sunpos_original(*item["args"], 0.0, 0.0, 0.0, 10.0)[4]
    none = sunpos_original(*item["args"], 0.0, 0.0, -1.0, 10.0)[4]
    one, two, cold = (base - sunpos_original(*item["args"], 0.0, 0.0, p, t)[4] for p, t in ((1.0, 10.0), (2.0, 10.0), (1.0, -20.0)))
    height = 90 - float(base)
    expected = 1.02/60/math.tan(math.radians(height + 10.3/(height + 5.11))) if height > 0 else 0
    values = (none - base, one, two, cold, height, expected)
    return {"lines": [{"ev": "refraction", "obs": {
        **dict(zip(("none", "one", "two", "cold", "height", "expected"), ints(values, 1e6))),
        "undefined": int(not np.isfinite(values).all())}}]}


def clock(item):
    time, dtt = np.array(item["times"]), np.array(item["dtt"])
    call = sunpos if item["other"] == 0 else lambda *a: sunpos_original(*a, 0.0, 20.0)
    dec, ra, ha, _, _ = call(time, 0.0*time, 0.0*time, 0.0*time, dtt)
    dec1, ra1, ha1, _, _ = call(time + dtt/86400, 0.0*time, 0.0*time, 0.0*time, 0.0*time)
    turn = 360.98564736629*dtt/86400
    wrap = lambda x: (x + 180) % 360 - 180
    return {"lines": [{"ev": "clock", "obs": {"diff": ints([dec - dec1, wrap(ra - ra1), wrap(ha + turn - ha1)], 1e9)}}]}


def execute(item):
    return {"walk": walk, "overhead": overhead, "gaze": gaze, "refraction": refraction, "clock": clock}[item["ev"]](item)

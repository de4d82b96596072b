"""Coordinate conversions and vector rotations; independent geometry. """
from math import pi
import numpy as np
from buffers import Buffers
from eoxmagmod import (
    convert, vrotate, vnorm, vincdecnorm, vrot_sph2geod, vrot_sph2cart, vrot_cart2sph,
    get_dipole_rotation_matrix, convert_to_dipole, vrot_from_dipole,
    sheval, sheval_dipole, ComposedGeomagneticModel, POTENTIAL_AND_GRADIENT,
)
from eoxmagmod._pymm import sheval2dfs, shevaltemp
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel,
)
from eoxmagmod.magnetic_model.model_mio import DipoleMIOGeomagneticModel
import evals

GEODETIC, SPHERICAL, CARTESIAN = 0, 1, 2
A, B = 6378.137, 6356.752314245179
E2 = 1 - (B/A)**2
RAD = pi/180
_REUSED = Buffers()
convert, vrotate, vnorm, vincdecnorm, vrot_sph2geod, vrot_sph2cart, vrot_cart2sph, convert_to_dipole, vrot_from_dipole = [
    _REUSED.wrap(f) for f in (convert, vrotate, vnorm, vincdecnorm, vrot_sph2geod, vrot_sph2cart, vrot_cart2sph,
                              convert_to_dipole, vrot_from_dipole)]


def degrees(tri):
    """ angle of the given sine and cosine """
    return float(np.degrees(np.arctan2(tri[0], tri[1])))


def ints(values, tol=1e-3):
    arr = np.asarray(values, dtype="float64")
    out = np.round(arr)
    if not np.isfinite(arr).all() or np.abs(arr - out).max() > tol or np.abs(out).max() > 2e9:
        return [777777777]*arr.size
    return [int(v) for v in out.ravel()]


def limited(values):
    """ rounded residuals """
    arr = np.nan_to_num(np.asarray(values, dtype="float64"), nan=1e9, posinf=1e9, neginf=-1e9)
    return [int(v) for v in np.clip(np.round(arr), -1000000000, 1000000000).ravel()]


def unit(lat, lon):
    return np.array([np.cos(lat*RAD)*np.cos(lon*RAD), np.cos(lat*RAD)*np.sin(lon*RAD), np.sin(lat*RAD)])


def axes(lat, lon):
    slat, clat, slon, clon = np.sin(lat*RAD), np.cos(lat*RAD), np.sin(lon*RAD), np.cos(lon*RAD)
    return np.array([[-slat*clon, -slat*slon, clat], [-slon, clon, 0], [clat*clon, clat*slon, slat]])


def position(x, frame):
    """ Cartesian position """
    x = np.asarray(x, dtype="float64")
    if frame == CARTESIAN:
        return x
    if frame == SPHERICAL:
        return x[2]*unit(x[0], x[1])
    slat, clat = np.sin(x[0]*RAD), np.cos(x[0]*RAD)
    rc = A/np.sqrt(1 - E2*slat*slat)
    return np.array([(rc + x[2])*clat*np.cos(x[1]*RAD), (rc + x[2])*clat*np.sin(x[1]*RAD),
                     (rc*(1 - E2) + x[2])*slat])


def in_frame(geodetic, frame):
    """ independent conversion of the geodetic coordinates """
    if frame == GEODETIC:
        return np.array(geodetic, dtype="float64")
    pos = position(geodetic, GEODETIC)
    if frame == CARTESIAN:
        return pos
    lat, lon, elv = geodetic
    slat, clat = np.sin(lat*RAD), np.cos(lat*RAD)
    rc = A/np.sqrt(1 - E2*slat*slat)
    radial, axial = (rc + elv)*clat, (rc*(1 - E2) + elv)*slat
    if abs(lat) == 90:
        radial = 0.0
    return np.array([np.degrees(np.arctan2(axial, radial)), lon, np.hypot(radial, axial)])


def foot(x):
    """ offsets of the foot point of geodetic coordinates and position """
    (lat, lon, elv), pos = x
    normal = unit(lat, lon)
    ground = pos - elv*normal
    grad = ground/np.array([A*A, A*A, B*B])
    off = (np.sqrt((ground*grad).sum()) - 1)*A*1e9
    tilt = np.linalg.norm(np.cross(normal, grad/np.linalg.norm(grad)))*1e9
    east = (pos*np.array([-np.sin(lon*RAD), np.cos(lon*RAD), 0.0])).sum()*1e9
    return limited([off, tilt, east])


def ranges(x, frame):
    return [] if frame == CARTESIAN else [limited([x[0]*1e6, x[1]*1e6])]


def walk(item):
    lon = degrees(item["lo"]) + 360*item["turn"]
    if item["minus"] and lon == 180:
        lon = -180.0
    lats = [degrees(x) for x in item["la"]]
    places = [np.array([lats[0], lon, 100.0]), np.array([lats[1], lon, 6500.0]),
              np.array([1.0, 2.0, 3.0])]
    v = np.array(item["v"], dtype="float64")
    if item["batch"]:
        v = np.array([v, v[::-1], v])
        places = [np.array([p, p + [1, 2, 3], p]) for p in places]

    def den(t):
        return 1 if t == CARTESIAN else item["la"][t][2]*item["lo"][2]
    path = item["path"]
    steps = [v]
    for fin, fout in zip(path, path[1:]):
        pin, pout = places[fin], places[fout]
        if item["how"]:
            if fin == CARTESIAN:
                v = vrot_cart2sph(v, pout[..., 0], pout[..., 1])
            elif fout == CARTESIAN:
                v = vrot_sph2cart(v, pin[..., 0], pin[..., 1])
            else:
                v = vrot_sph2geod(v, pout[..., 0] - pin[..., 0])
        else:
            v = vrotate(v, None if fin == CARTESIAN and item["none"] else pin,
                        None if fout == CARTESIAN and item["none"] else pout, fin, fout)
        steps.append(v)
    pick = (lambda x: x[2]) if item["batch"] else (lambda x: x)
    return {"steps": [ints(np.asarray(pick(s))*den(path[0])*den(t)) for s, t in zip(steps, path)]}


def tilt(item):
    """ rotation of a vector by a small angle """
    v, lat, step = np.array(item["v"], dtype="float64"), item["lat"], item["step"]
    old, new = [lat, item["lon"], 100.0], [lat + step, item["lon"], 6500.0]
    if item["how"]:
        out = vrot_sph2geod(v, new[0] - old[0])
    else:
        fin, fout = item["types"]
        out = vrotate(v, old, new, fin, fout)
    angle = (new[0] - old[0])*RAD
    return {"angle": int(round(angle*1e10)), "moved": limited((np.asarray(out) - v)*1e9)}


def vector(item):
    v = np.array(item["v"], dtype="float64")
    inc, dec, norm = vincdecnorm(v)
    parts = [norm*np.cos(inc*RAD)*np.cos(dec*RAD), norm*np.cos(inc*RAD)*np.sin(dec*RAD),
             -norm*np.sin(inc*RAD)]
    return {"norm2": ints(float(vnorm(v))**2)[0], "parts": ints(parts), "ranges": ranges((inc, dec), 1)}


def given(u, rho, r, frame, lon=None):
    """ input of the lattice direction """
    u = np.array(u, dtype="float64")
    if frame == CARTESIAN:
        return u*r/rho
    if u[0] or u[1] or lon is None:
        lon = np.degrees(np.arctan2(u[1], u[0]))
    lat = np.degrees(np.arctan2(u[2], np.hypot(u[0], u[1])))
    if frame == SPHERICAL:
        return np.array([lat, lon, r])
    # point of the axes
    return np.array([lat, lon, r - (A if u[2] == 0 else B)])


def point(item):
    x = given(item["u"], item["rho"], item["r"], item["cin"], item["lon"])
    out = convert(x, item["cin"], item["cout"])
    pos = position(out, item["cout"])
    return {"dir": ints(pos*item["rho"]/item["r"], 1e-5), "r": ints(np.linalg.norm(pos), 1e-6)[0],
            "ranges": ranges(out, item["cout"]) if item["cin"] == CARTESIAN else []}


def geodetic(item):
    if item["cin"] == GEODETIC:
        x = np.array(item["x"])
        pos = position(convert(x, GEODETIC, item["cout"]), item["cout"])
        return {"off": foot((x, pos)), "ranges": []}
    x = np.array(item["x"])
    out = convert(x, item["cin"], GEODETIC)
    return {"off": foot((out, position(x, item["cin"]))),
            "ranges": ranges(out, GEODETIC) if item["cin"] == CARTESIAN else []}


def round_trip(item):
    path = item["path"]
    x = np.array(item["x"])
    start = position(x, path[0])
    offs = []
    for fin, fout in zip(path, path[1:]):
        x = convert(x, fin, fout)
        offs.append(np.linalg.norm(position(x, fout) - start)*1e9*min(1, 6500/np.linalg.norm(start)))
    return {"off": limited(offs)}


def pole(q):
    return degrees((q["sl"], q["cl"])), degrees((q["so"], q["co"]))


def matrix(item):
    q = item["q"]
    rows = get_dipole_rotation_matrix(*pole(q))*q["d"]*q["e"]
    return {"rows": [ints(r) for r in rows]}


def poles(item):
    """ change of the rotation matrix between two poles next to each other """
    old, new = item["x"], list(item["x"])
    new[item["axis"]] += item["step"]
    diff = [(new[k] - old[k])*RAD*1e10 for k in (0, 1)]
    new[1] += item["turn"]*360.0
    if item["how"]:
        # the columns are the converted axes
        def rows(where):
            pts = np.array([[6371.2, 0.0, 0.0], [0.0, 6371.2, 0.0], [0.0, 0.0, 6371.2]])
            out = convert_to_dipole(pts, *where, CARTESIAN)
            return np.array([unit(*p[:2]) for p in out])
    else:
        def rows(where):
            return np.array(get_dipole_rotation_matrix(*where))
    first = rows(old)
    second = rows(new)
    return {"rows": [ints(r*1e8, 1) for r in first], "moved": [ints(r*1e10, 1) for r in second - first],
            "angle": ints(diff, 1)}


def dpoint(item):
    q = item["q"]
    x = given(item["u"], item["rho"], item["r"], item["cin"], 0.0)
    out = convert_to_dipole(x, *pole(q), item["cin"])
    return {"dir": ints(unit(out[0], out[1])*item["rho"]*q["d"]*q["e"]),
            "r": ints(out[2], 1e-6)[0], "ranges": ranges(out, SPHERICAL)}


def dvector(item):
    q = item["q"]
    args = [degrees(item["la"]), degrees(item["lo"])]
    den = item["la"][2]*item["lo"][2]*q["d"]*q["e"]
    if item["out"] != CARTESIAN:
        args += [degrees(item["la2"]), degrees(item["lo2"])]
        den *= item["la2"][2]*item["lo2"][2]
    out = vrot_from_dipole(np.array(item["v"], dtype="float64"), *pole(q), *args,
                           coord_type_out=item["out"])
    return {"out": ints(np.asarray(out)*den, 0.01)}


_MODELS = {}


def evaluator(what, internal):
    """ f(x, cin, cout) -> potential or None, vector """
    degree = 6
    opts = {"mode": POTENTIAL_AND_GRADIENT, "is_internal": internal}
    if what == "sheval":
        return lambda x, i, o: sheval(x, evals.dense(degree), i, o, **opts)
    if what == "dipole":
        return lambda x, i, o: sheval_dipole(x, evals.dense(degree), *evals.POLE, i, o, **opts)
    if what == "shevaltemp":
        return lambda x, i, o: shevaltemp(
            4200.0, x, evals.time_sets("linear", degree), i, o, **opts)
    if what == "sheval2dfs":
        coeff = evals.mio_coeff(3, internal).get_f2fs_coeff_set()
        return lambda x, i, o: sheval2dfs(0.3, 7.5, x, coeff, i, o, **opts)
    if what == "model":
        model = SphericalHarmomicGeomagneticModel(evals.sh_coeff("linear", degree))
    elif what == "dipole_model":
        model = DipoleSphericalHarmomicGeomagneticModel(evals.sh_coeff("static", degree), evals.POLE)
    elif what == "mio":
        model = DipoleMIOGeomagneticModel(evals.mio_coeff(3, internal), evals.POLE)
    else:
        model = ComposedGeomagneticModel()
        model.push(SphericalHarmomicGeomagneticModel(evals.sh_coeff("composed", degree)))
        model.push(DipoleMIOGeomagneticModel(evals.mio_coeff(3, internal), evals.POLE), 0.5)
    return lambda x, i, o: (None, model.eval(4200.0, x, i, o))


def field(item):
    key = item["what"], item["internal"]
    if key not in _MODELS:
        _MODELS[key] = evaluator(*key)
    function = _MODELS[key]
    vectors, pots = [], []
    lat, lon, _ = item["x"]
    for cin in (GEODETIC, SPHERICAL, CARTESIAN):
        x = in_frame(item["x"], cin)
        if cin == CARTESIAN and abs(lat) == 90:
            x[:2] = 0.0
        lon_in = lon if cin != CARTESIAN else float(np.degrees(np.arctan2(x[1], x[0])))
        for cout in (GEODETIC, SPHERICAL, CARTESIAN):
            pot, vec = function(x, cin, cout)
            vec = np.asarray(vec)
            if cout != CARTESIAN:
                lat_out = in_frame(item["x"], cout)[0]
                vec = vec @ axes(lat_out, lon_in)
            vectors.append(limited(vec*item["unit"]))
            if pot is not None:
                pots.append(limited(float(pot)*item["unit"]/100)[0])
    return {"vectors": vectors, "potentials": pots}


def execute(item):
    return {"walk": walk, "tilt": tilt, "vector": vector, "point": point, "geodetic": geodetic,
            "round": round_trip, "matrix": matrix, "poles": poles, "dpoint": dpoint, "dvector": dvector,
            "field": field}[item["ev"]](item)

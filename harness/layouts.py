"""Calls of functions with inputs of all memory layouts and types. """
import random
import warnings
import numpy as np
import eoxmagmod
from eoxmagmod import time_util
from eoxmagmod import _pymm
from eoxmagmod import (
    sheval, sheval_dipole, convert, convert_to_dipole, vrot_from_dipole, vrotate, vnorm, vincdecnorm,
    vrot_sph2geod, vrot_sph2cart, vrot_cart2sph, sunpos, sunpos_original, eval_qdlatlon,
    eval_qdlatlon_with_base_vectors, eval_mlt, eval_subsol, mjd2000_to_magnetic_universal_time,
    legendre, loncossin, relradpow, spharpot, sphargrd, trace_field_line, ComposedGeomagneticModel,
    mjd2000_to_decimal_year, mjd2000_to_year_fraction, decimal_year_to_mjd2000, get_dipole_rotation_matrix,
    GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN,
)
from eoxmagmod._pymm import sheval2dfs, shevaltemp, bisect, interp, fourier2d
from eoxmagmod.magnetic_model import coefficients as mcoeff
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel)
from eoxmagmod.magnetic_model.model_mio import MIOPrimaryGeomagneticModel, DipoleMIOGeomagneticModel

POLE = (80.0, -72.0)
EXACT = ("<i8", "<i4", "<i2", "<i1", "<u2", "<u1", ">i4", ">i2")
FLOATS = ("<f8", ">f8", "<f4", ">f4", "<f2")
COORDS = (GEODETIC_ABOVE_WGS84, GEOCENTRIC_SPHERICAL, GEOCENTRIC_CARTESIAN)


def quantum(rnd, low, high, whole):
    """ number exact in single precision """
    return float(rnd.randint(int(low), int(high))) if whole else rnd.randint(int(low*8), int(high*8))/8


def vector(rnd, shape, low, high, whole):
    return np.array([quantum(rnd, low, high, whole) for _ in range(int(np.prod(shape)))]).reshape(shape)


def places(rnd, shape, coord, whole, radius=False):
    if coord == GEOCENTRIC_CARTESIAN:
        arr = vector(rnd, (*shape, 3), 3000, 7000, whole)*np.array([rnd.choice((-1, 1)) for _ in range(3)])
        return arr
    arr = np.empty((*shape, 3))
    arr[..., 0] = vector(rnd, shape, -85, 85, whole)
    arr[..., 1] = vector(rnd, shape, -180, 180, whole)
    arr[..., 2] = vector(rnd, shape, *((0, 120) if coord == GEODETIC_ABOVE_WGS84 else (6400, 7100)), whole)
    return arr


def matrix(rnd, degree, whole, shape=()):
    size = (degree + 1)*(degree + 2)//2
    arr = vector(rnd, (*shape, size, 2), -90, 90, whole)
    for n in range(degree + 1):
        arr[..., n*(n + 1)//2, 1] = 0
    arr[..., 0, :] = 0
    return arr


def terms(degree):
    return np.array([(n, m) for n in range(1, degree + 1) for m in range(-n, n + 1)], dtype="float64")


NODES = np.array([3800.0, 4100.0, 4400.0, 5000.0])


def entry(name, rnd, whole):
    """ function, its array inputs and the other way to be set """
    shape = rnd.choice(((), (4,), (2, 3), (2, 1, 2)))
    line = rnd.choice(((), (5,)))
    cin, cout = rnd.choice(COORDS), rnd.choice(COORDS)
    if name in ("convert", "vrotate") and cin == cout:
        cout = COORDS[(COORDS.index(cin) + 1) % 3]      # the identity may return its input
    opts = {"mode": rnd.randint(1, 3), "is_internal": rnd.random() < 0.5}
    if rnd.random() < 0.3:
        opts["scale_potential"] = 2.0
    degree = rnd.randint(1, 4)
    if name == "bisect":
        return (lambda a: bisect(a[0], a[1])), lambda: [np.array([-5.0, 0, 3, 4, 8, 11]), vector(rnd, shape, -7, 13, whole)]
    if name == "interp":
        tail = rnd.choice(((), (2,), (2, 2)))
        kind = rnd.choice((_pymm.INTERP_C0, _pymm.INTERP_C1, _pymm.INTERP_C1D1))
        return (lambda a: interp(a[0], a[1], a[2], kind=kind, extrapolate=True)), lambda: [
            vector(rnd, shape, -7, 13, whole), np.array([-5.0, 0, 3, 4, 8, 11]), vector(rnd, (*tail, 6), -50, 50, whole)]
    if name == "fourier2d":
        tail = rnd.choice(((), (2,), (2, 2)))
        return (lambda a: fourier2d(a[0], a[1], a[2], -1, -2, 0.25, 0.5)), lambda: [
            vector(rnd, shape, -7, 13, whole), vector(rnd, shape, 0, 30, whole), vector(rnd, (*tail, 3, 5, 2), -50, 50, whole)]
    if name == "legendre":
        return (lambda a: legendre(a[0], degree)), lambda: [vector(rnd, shape, -90, 90, whole)]
    if name == "loncossin":
        fast = rnd.random() < 0.5
        return (lambda a: loncossin(a[0], degree, fast)), lambda: [vector(rnd, shape, -180, 180, whole)]
    if name == "relradpow":
        internal = rnd.random() < 0.5
        return (lambda a: relradpow(a[0], degree, 6371.25, internal)), lambda: [vector(rnd, shape, 6400, 7000, whole)]
    if name in ("spharpot", "sphargrd"):
        size = (degree + 1)*(degree + 2)//2
        def blocks():
            return [vector(rnd, shape, 1, 90, whole), matrix(rnd, degree, whole),
                    vector(rnd, (*shape, size), -9, 9, whole), vector(rnd, (*shape, size), -9, 9, whole),
                    vector(rnd, (*shape, degree + 1), 1, 9, whole), vector(rnd, (*shape, degree + 1, 2), -9, 9, whole)]
        if name == "sphargrd":
            return (lambda a: sphargrd(*a)), blocks
        return (lambda a: spharpot(a[0], a[1], a[2], a[3], a[4])), lambda: [b for k, b in enumerate(blocks()) if k != 3]
    if name == "sheval":
        multi = rnd.random() < 0.4
        return (lambda a: sheval(a[0], a[1], cin, cout, **opts)), lambda: [
            places(rnd, shape, cin, whole), matrix(rnd, degree, whole, shape if multi else ())]
    if name == "sheval_scale":
        opts["mode"] = rnd.randint(2, 3)
        return (lambda a: sheval(a[0], a[1], cin, cout, scale_gradient=a[2], **opts)), lambda: [
            places(rnd, shape, cin, whole), matrix(rnd, degree, whole), vector(rnd, rnd.choice(((), (3,))), 1, 9, whole)]
    if name == "sheval_dipole":
        opts.pop("scale_potential", None)
        return (lambda a: sheval_dipole(a[0], a[1], *POLE, cin, cout, **opts)), lambda: [
            places(rnd, shape, cin, whole), matrix(rnd, degree, whole)]
    if name == "shevaltemp":
        order = rnd.choice((1, 2))
        return (lambda a: shevaltemp(a[0], a[1], [(a[2], a[3], a[4], order), (a[2], a[5], a[6], 2)], cin, cout, **opts)), lambda: [
            vector(rnd, shape, 3900, 4900, whole), places(rnd, shape, cin, whole), NODES,
            vector(rnd, (len(terms(degree)), 4), -90, 90, whole), terms(degree),
            vector(rnd, (2, 4), -90, 90, whole), np.array([[1.0, 0], [2, -1]])]
    if name == "sheval2dfs":
        return (lambda a: sheval2dfs(a[0], a[1], a[2], (a[3], a[4], -1, -1, 0.5, 0.25), cin, cout, **opts)), lambda: [
            vector(rnd, shape, 0, 12, whole), vector(rnd, shape, 0, 24, whole), places(rnd, shape, cin, whole),
            vector(rnd, (len(terms(degree)), 3, 3, 2), -9, 9, whole), terms(degree)]
    if name == "convert":
        return (lambda a: convert(a[0], cin, cout)), lambda: [places(rnd, shape, cin, whole)]
    if name in ("vrot_sph2cart", "vrot_cart2sph"):
        func = getattr(eoxmagmod, name)
        return (lambda a: func(a[0], a[1], a[2])), lambda: [
            vector(rnd, (*shape, 3), -99, 99, whole), vector(rnd, shape, -90, 90, whole), vector(rnd, shape, -180, 180, whole)]
    if name == "vrot_sph2geod":
        return (lambda a: vrot_sph2geod(a[0], a[1])), lambda: [
            vector(rnd, (*shape, 3), -99, 99, whole), vector(rnd, shape, -1, 1, whole)]
    if name == "vrotate" and rnd.random() < 0.4:
        # small whole numbers (the radii are not used)
        low = rnd.choice((0, 0, -85))
        cin, cout = rnd.choice((COORDS[:2], COORDS[1::-1]))
        return (lambda a: vrotate(a[0], a[1], a[2], cin, cout)), lambda: [
            vector(rnd, (*shape, 3), low, 85, True) for _ in range(3)]
    if name == "vrotate":
        return (lambda a: vrotate(a[0], a[1], a[2], cin, cout)), lambda: [
            vector(rnd, (*shape, 3), -99, 99, whole), places(rnd, shape, cin, whole), places(rnd, shape, cout, whole)]
    if name in ("vnorm", "vincdecnorm"):
        func = {"vnorm": vnorm, "vincdecnorm": vincdecnorm}[name]
        return (lambda a: func(a[0])), lambda: [vector(rnd, (*shape, 3), -90000, 90000, whole) if rnd.random() < 0.5
                                                else vector(rnd, (*shape, 3), 0, 120, whole)]
    if name == "convert_to_dipole":
        return (lambda a: convert_to_dipole(a[0], *POLE, cin)), lambda: [places(rnd, shape, cin, whole)]
    if name == "vrot_from_dipole":
        out = rnd.choice((GEOCENTRIC_SPHERICAL, GEODETIC_ABOVE_WGS84, GEOCENTRIC_CARTESIAN))
        return (lambda a: vrot_from_dipole(a[0], *POLE, a[1], a[2], a[3], a[4], coord_type_out=out)), lambda: [
            vector(rnd, (*shape, 3), -99, 99, whole)] + [vector(rnd, shape, -80, 80, whole) for _ in range(4)]
    if name == "rotation":
        return (lambda a: get_dipole_rotation_matrix(a[0], a[1])), lambda: [
            vector(rnd, (), -80, 80, whole), vector(rnd, (), -180, 180, whole)]
    if name == "sunpos":
        return (lambda a: sunpos(*a)), lambda: [
            vector(rnd, shape, -3000, 9000, whole), vector(rnd, shape, -80, 80, whole), vector(rnd, shape, -180, 180, whole),
            vector(rnd, shape, 6400, 7000, whole), vector(rnd, shape, -60, 60, whole)]
    if name == "sunpos_original":
        return (lambda a: sunpos_original(*a)), lambda: [
            vector(rnd, shape, -3000, 9000, whole), vector(rnd, shape, -80, 80, whole), vector(rnd, shape, -180, 180, whole),
            vector(rnd, shape, 6400, 7000, whole), vector(rnd, shape, -60, 60, whole),
            vector(rnd, shape, 1, 3, whole), vector(rnd, shape, -20, 30, whole)]
    if name in ("mjd2000_to_decimal_year", "mjd2000_to_year_fraction", "mjd2000_to_decimal_year_simple",
                "mjd2000_to_year_fraction_simple"):
        func = getattr(time_util, name)
        return (lambda a: func(a[0])), lambda: [vector(rnd, shape, -30000, 30000, whole)]
    if name in ("decimal_year_to_mjd2000", "decimal_year_to_mjd2000_simple"):
        func = getattr(time_util, name)
        return (lambda a: func(a[0])), lambda: [vector(rnd, shape, 1900, 2100, whole)]
    if name in ("eval_qdlatlon", "eval_qdlatlon_with_base_vectors"):
        func = getattr(eoxmagmod, name)
        return (lambda a: func(*a)), lambda: [
            vector(rnd, line, -80, 80, whole), vector(rnd, line, -180, 180, whole), vector(rnd, line, 6400, 7000, whole),
            vector(rnd, line, 2005, 2025, whole)]
    if name == "eval_mlt":
        return (lambda a: eval_mlt(a[0], a[1])), lambda: [
            vector(rnd, line, -180, 180, whole), vector(rnd, line, 0, 9000, whole)]
    if name == "eval_subsol":
        return (lambda a: eval_subsol(a[0])), lambda: [vector(rnd, line, 0, 9000, whole)]
    if name == "mut":
        return (lambda a: mjd2000_to_magnetic_universal_time(a[0], *POLE)), lambda: [vector(rnd, shape, 0, 9000, whole)]
    if name == "mut_sun":
        return (lambda a: mjd2000_to_magnetic_universal_time(a[0], *POLE, a[1], a[2])), lambda: [
            vector(rnd, shape, 0, 9000, whole), vector(rnd, shape, -23, 23, whole), vector(rnd, shape, -180, 180, whole)]
    frames = {"input_coordinate_system": cin, "output_coordinate_system": cout}
    time = rnd.choice((shape, ()))
    if name in ("model", "dipole_model", "composed_model", "line"):
        kind = rnd.choice(("static", "linear", "years", "combined", "composed", "mixed"))
        def make(a):
            return coefficients(kind, *a)
        def arrays():
            names = terms(degree)
            return [names, vector(rnd, (len(names), 4), -90, 90, whole), NODES]
        def model_of(a):
            # model of the given coefficient arrays
            coeff = make(a)
            if name == "dipole_model":
                return DipoleSphericalHarmomicGeomagneticModel(coeff, POLE)
            model = SphericalHarmomicGeomagneticModel(coeff)
            if name == "composed_model":
                composed = ComposedGeomagneticModel()
                composed.push(model, 2.0)
                composed.push(DipoleSphericalHarmomicGeomagneticModel(coeff, POLE), 0.5)
                return composed
            return model
        if name == "line":
            start = places(rnd, (), cin, whole)
            return (lambda a, m: trace_field_line(m, 4250.0, a[0], cin, cout, {"max_steps": 4, "step": 50.0})), lambda: [
                start + np.array([0, 0, rnd.randint(0, 9)])], arrays, model_of
        if rnd.random() < 0.3:
            return (lambda a, m: m.eval(a[0], a[1], scale=a[2], **frames)), lambda: [
                vector(rnd, time, 3900, 4900, whole), places(rnd, shape, cin, whole), vector(rnd, (3,), 1, 5, whole)], arrays, model_of
        return (lambda a, m: m.eval(a[0], a[1], **frames)), lambda: [
            vector(rnd, time, 3900, 4900, whole), places(rnd, shape, cin, whole)], arrays, model_of
    if name in ("mio_model", "primary_model"):
        def arrays():
            names = terms(degree)
            return [names, vector(rnd, (len(names), 3, 4, 2), -9, 9, whole)]
        def model_of(a):
            coeff = SparseSHCoefficientsMIO(a[0], a[1], ps_extent=(-1, 2, -1, 1), is_internal=name != "mio_model")
            if name == "mio_model":
                return DipoleMIOGeomagneticModel(coeff, POLE)
            other = SparseSHCoefficientsMIO(a[0], a[1], ps_extent=(-1, 2, -1, 1), is_internal=False)
            return MIOPrimaryGeomagneticModel(DipoleMIOGeomagneticModel(other, POLE), DipoleMIOGeomagneticModel(coeff, POLE))
        if rnd.random() < 0.5:
            return (lambda a, m: m.eval(a[0], a[1], f107=a[2], lat_sol=a[3], lon_sol=a[4], **frames)), lambda: [
                vector(rnd, time, 3900, 4900, whole), places(rnd, shape, cin, whole), vector(rnd, time, 60, 120, whole),
                vector(rnd, time, -23, 23, whole), vector(rnd, time, -180, 180, whole)], arrays, model_of
        return (lambda a, m: m.eval(a[0], a[1], f107=a[2], **frames)), lambda: [
            vector(rnd, time, 3900, 4900, whole), places(rnd, shape, cin, whole), vector(rnd, time, 60, 120, whole)], arrays, model_of
    if name in ("coeff", "coeff_mio"):
        kind = rnd.choice(("static", "linear", "years", "combined", "composed", "mixed"))
        def arrays():
            names = terms(degree)
            if name == "coeff_mio":
                return [names, vector(rnd, (len(names), 3, 4, 2), -9, 9, whole)]
            return [names, vector(rnd, (len(names), 4), -90, 90, whole), NODES]
        def coeff_of(a):
            if name == "coeff_mio":
                return SparseSHCoefficientsMIO(a[0], a[1], ps_extent=(-1, 2, -1, 1), is_internal=True)
            return coefficients(kind, *a)
        limit = rnd.choice(({}, {"max_degree": 1}, {"min_degree": 2}))
        if name == "coeff_mio":
            return (lambda a, m: m(a[0], a[1], **limit)[0]), lambda: [
                vector(rnd, shape, 3900, 4900, whole), vector(rnd, shape, 0, 24, whole)], arrays, coeff_of
        return (lambda a, m: m(a[0], **limit)[0]), lambda: [vector(rnd, shape, 3900, 4900, whole)], arrays, coeff_of
    raise KeyError(name)


def coefficients(kind, names, values, times):
    if kind == "static":
        return mcoeff.SparseSHCoefficientsConstant(names, column(values, 0))
    if kind == "linear":
        return mcoeff.SparseSHCoefficientsTimeDependent(names, values, times)
    if kind == "years":
        return mcoeff.SparseSHCoefficientsTimeDependentDecimalYear(names, values, np.asarray(times, dtype="f8")/400 + 2000)
    if kind == "combined":
        return mcoeff.CombinedSHCoefficients(coefficients("static", names, values, times),
                                             coefficients("linear", names, values, times))
    if kind == "mixed":
        return mcoeff.CombinedSHCoefficients(coefficients("years", names, values, times),
                                             coefficients("linear", names, values, times))
    return mcoeff.ComposedSHCoefficients(
        mcoeff.SparseSHCoefficientsTimeDependent(names, values, times, validity_end=4300),
        mcoeff.SparseSHCoefficientsConstant(names, column(values, 1), validity_start=4300))


def column(values, idx):
    if isinstance(values, (list, tuple)):
        return [row[idx] for row in values]
    return values[:, idx]


def realize(logical, layout, rnd):
    """ array, or sequence, equal to the given values """
    kind = layout["kind"]
    if kind in ("list", "tuple"):
        def seq(x):
            if isinstance(x, list):
                return tuple(map(seq, x)) if kind == "tuple" else list(map(seq, x))
            return int(x) if layout["whole"] and x == int(x) else x
        return seq(logical.tolist())
    if kind == "number":
        return layout["type"](logical[()])
    dtype = np.dtype(layout["dtype"])
    axes, swap = layout["axes"], layout["swap"]
    shape, views = [], []
    for k, size in enumerate(logical.shape):
        axis = axes[k % 2]
        step, low = abs(axis["step"]), axis["first"]
        total = layout["sizes"][k % 2]
        if axis["step"] < 0:
            low += (axis["n"] - 1)*axis["step"]
        tail = total - 1 - (low + (axis["n"] - 1)*step)
        length = low + (size - 1)*step + 1 + tail
        shape.append(length)
        view = slice(low, low + (size - 1)*step + 1, step)
        views.append((view, axis["step"] < 0))
    bad = np.nan if dtype.kind == "f" else 99
    order = "F" if swap else "C"
    if layout["odd"]:
        raw = np.zeros(int(np.prod(shape))*dtype.itemsize + 1, dtype="u1")
        base = raw[1:].view(dtype).reshape(shape, order=order)
    else:
        base = np.empty(shape, dtype=dtype, order=order)
    base[...] = bad
    out = base
    for k, (view, reverse) in enumerate(views):
        sel = [slice(None)]*len(shape)
        sel[k] = view
        out = out[tuple(sel)]
        if reverse:
            sel[k] = slice(None, None, -1)
            out = out[tuple(sel)]
    out[...] = logical
    if layout["fixed"]:
        out.flags.writeable = False
    assert np.array_equal(out, logical), (out, logical, layout)
    return out


def choose(rnd, logical, layouts, names=False, arrays=False, common=None):
    """ layout able to hold the values """
    roll = rnd.random() if not arrays and common is None else 1
    whole = bool((logical == np.round(logical)).all())
    if roll < 0.16:
        return {"kind": rnd.choice(("list", "tuple")), "whole": names or rnd.random() < 0.5}
    if logical.ndim == 0 and roll < 0.6:
        types = [float, np.float64, np.float32] + ([int, np.int64, np.int32] if whole else [])
        return {"kind": "number", "type": rnd.choice(types)}
    dtypes = [d for d in FLOATS*2 + EXACT if holds(logical, d)]
    if names:
        dtypes = [d for d in dtypes if np.dtype(d).kind in "iu" and d != "<i8"]
    plain = rnd.random() < 0.35
    return {"kind": "array", "dtype": common if common in dtypes else rnd.choice(dtypes) if rnd.random() < 0.6 and not plain else ("<i4" if names else "<f8"),
            "odd": rnd.random() < 0.15, "fixed": rnd.random() < 0.3,
            **(rnd.choice(layouts) if not plain else {"swap": 0, "sizes": [6, 8], "axes": [
                {"first": 0, "step": 1, "n": 6}, {"first": 0, "step": 1, "n": 8}]})}


def holds(logical, dtype):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            return np.array_equal(logical.astype(dtype).astype("f8"), logical)


def form_of(layouts):
    """ name of the most unusual part """
    found = set()
    for item in layouts:
        if item["kind"] != "array":
            found.add("sequence" if item["kind"] != "number" else "number")
            continue
        dtype = np.dtype(item["dtype"])
        if dtype.kind in "iu":
            found.add("integer")
        elif dtype.itemsize < 8:
            found.add("single")
        elif dtype.str[0] == ">":
            found.add("swapped")
        elif item["odd"]:
            found.add("unaligned")
        elif any(a["step"] < 0 for a in item["axes"]):
            found.add("reversed")
        elif item["swap"]:
            found.add("transposed")
        elif any(abs(a["step"]) > 1 or a["first"] or a["n"] < s for a, s in zip(item["axes"], item["sizes"])):
            found.add("strided")
        elif item["fixed"]:
            found.add("readonly")
    for name in ("integer", "single", "sequence", "swapped", "unaligned", "reversed", "transposed", "strided", "number",
                 "readonly"):
        if name in found:
            return name
    return "plain"


class Heap:
    """ observed objects """
    def __init__(self):
        self.objects, self.tokens = [], {}

    def token(self, obj):
        if isinstance(obj, np.ndarray):
            key = (obj.shape, obj.dtype.str, obj.tobytes())
        else:
            key = repr(obj)
        return self.tokens.setdefault(key, len(self.tokens) + 1)

    def add(self, obj):
        self.objects.append(obj)
        return len(self.objects)

    def snapshot(self):
        return [self.token(o) for o in self.objects]


def results_of(value):
    if isinstance(value, tuple):
        return [np.asarray(v) if not isinstance(v, np.ndarray) else v for v in value]
    return [value if isinstance(value, np.ndarray) else np.asarray(value)]


def execute(item):
    rnd = random.Random(item["seed"])
    name = item["func"]
    function, inputs, *model = entry(name, rnd, item["whole"])
    heap = Heap()
    keys = {k: inputs() for k in (1, 2)}
    names_at = {"shevaltemp": (4, 6), "sheval2dfs": (4,)}.get(name, ())
    layouts = item["layouts"]
    pool = {}
    models = {}
    if model:
        logical = model[0]()
        for k in (1, 2):
            chosen = [choose(rnd, x, layouts, i == 0, True) for i, x in enumerate(logical)]
            made = [realize(x, c, rnd) for x, c in zip(logical, chosen)]
            for obj in made:
                heap.add(obj)
            models[k] = chosen, model[1](made)
    lines = []
    outcomes = []        # results per call: [(object, id)]
    reference = []       # distinct values
    refilled = set()
    for op in item["history"]:
        if op == 0:
            # the writable arrays get the values of the other key
            moved, changed = {}, []
            for (key, k), entries in pool.items():
                new = 3 - key
                values = keys[new][k]
                for entry_ in entries:
                    layout, obj, number = entry_
                    if isinstance(obj, np.ndarray) and obj.flags.writeable and obj.shape == values.shape and holds(values, obj.dtype.str):
                        obj[...] = values
                        changed.append(number)
                        moved.setdefault((new, k), []).append(entry_)
                    else:
                        moved.setdefault((key, k), []).append(entry_)
            pool = moved
            refilled |= set(changed)
            lines.append({"ev": "refill", "objs": changed, "heap": heap.snapshot()})
        elif op > 0:
            before = len(heap.objects)
            args, ids, chosen = [], [], []
            # the same type of all inputs
            common = rnd.choice([d for d in EXACT + FLOATS if all(holds(x, d) for x in keys[op])]) if rnd.random() < 0.3 else None
            for k, x in enumerate(keys[op]):
                if (op, k) in pool and common is None and rnd.random() < 0.5:
                    layout, obj, number = rnd.choice(pool[op, k])
                else:
                    layout = choose(rnd, x, layouts, k in names_at, common=common)
                    obj = realize(x, layout, rnd)
                    number = heap.add(obj)
                    pool.setdefault((op, k), []).append((layout, obj, number))
                args.append(obj)
                ids.append(number)
                chosen.append(layout)
            extra = []
            if models:
                number = rnd.choice((1, 2))
                chosen += models[number][0][1:]
                extra = [models[number][1]]
            made = [[i + 1, heap.token(heap.objects[i])] for i in range(before, len(heap.objects))]
            line = {"ev": "call", "key": op, "form": form_of(chosen), "args": ids, "made": made, "again": int(bool(refilled & set(ids)))}
            try:
                results = results_of(function(args, *extra))
            except Exception as error:  # pylint: disable=broad-except
                line.update(tok=0, shared=0, error=repr(error)[:120] + str([c.get("dtype", c["kind"]) for c in chosen]))
                results = []
            else:
                flat = [(r.shape, r.dtype.kind, np.array(r, dtype="f8").ravel()) for r in results]
                line["tok"] = match(reference, flat)
                # views of the inputs, or of the other results
                line["shared"] = int(any(
                    np.shares_memory(r, o) for r in results for o in heap.objects if isinstance(o, np.ndarray)))
            outcomes.append([(r, heap.add(r)) for r in results])
            line["res"] = [i for _, i in outcomes[-1]]
            line["heap"] = heap.snapshot()
            lines.append(line)
        else:
            for array, number in outcomes[-op - 1]:
                if not array.flags.writeable:
                    continue
                array[...] = 12345 + len(lines)
                lines.append({"ev": "write", "obj": number, "heap": heap.snapshot()})
    return {"lines": lines}


def match(reference, flat):
    for idx, other in enumerate(reference):
        if len(flat) == len(other) and all(
                a[0] == b[0] and a[1] == b[1] and np.allclose(a[2], b[2], rtol=1e-11, atol=1e-11*size(b[2]), equal_nan=True)
                for a, b in zip(flat, other)):
            return idx + 1
    reference.append(flat)
    return len(reference)


def size(arr):
    arr = arr[np.isfinite(arr)]
    return float(np.abs(arr).max()) if arr.size else 0.0

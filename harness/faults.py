"""Calls of the exported functions with correct and faulty arguments. """
import ctypes
import gc
import hashlib
import json
import os
import random
import resource
import signal
import sys
import tempfile
import warnings
import numpy as np
import eoxmagmod as E
from eoxmagmod import _pymm, time_util, data
from eoxmagmod import ComposedGeomagneticModel
from eoxmagmod.magnetic_model import coefficients as mc
from eoxmagmod.magnetic_model.coefficients_mio import SparseSHCoefficientsMIO
from eoxmagmod.magnetic_model.model import (
    SphericalHarmomicGeomagneticModel, DipoleSphericalHarmomicGeomagneticModel)
from eoxmagmod.magnetic_model.model_mio import (
    MIOPrimaryGeomagneticModel, DipoleMIOGeomagneticModel)
from eoxmagmod.magnetic_model import loader_shc, loader_igrf, loader_wmm, loader_mio, loader_mma, loader_emm
import qd

warnings.simplefilter("ignore")
TESTS = os.path.join(os.path.dirname(mc.__file__), "tests", "data")
MEMORY = 6 << 30
PER_SCENARIO = 150
POLE = (80.0, -72.0)
ALL_SHAPES = ((), (4,), (2, 3))

SHC = """# synthetic
1 2 2 2 1
2015.0 2020.0
1 0 -100.5 -90.25
1 1 12.5 8.5
1 -1 3.25 -4.5
2 0 1.5 -2.5
2 1 -0.5 0.25
2 -1 4.5 2.25
2 2 7.5 5.5
2 -2 1.25 -1.5
"""


class Refuser:
    """ object which cannot be converted to anything """
    def __array__(self, *args, **kwargs):
        raise RuntimeError("no array")

    def __float__(self):
        raise RuntimeError("no number")

    __int__ = __index__ = __bool__ = __len__ = __iter__ = __float__

    def __fspath__(self):
        raise RuntimeError("no path")


class Liar:
    """ object converted to something else """
    def __array__(self, *args, **kwargs):
        return "no array"

    def __float__(self):
        return "no number"

    __int__ = __index__ = __float__

    def __fspath__(self):
        return 5


class Thing:
    pass


def matrix(rng, degree, shape=()):
    arr = rng.uniform(-90, 90, (*shape, (degree + 1)*(degree + 2)//2, 2))
    for n in range(degree + 1):
        arr[..., n*(n + 1)//2, 1] = 0
    return arr


def terms(degree):
    return np.array([(n, m) for n in range(1, degree + 1) for m in range(-n, n + 1)], dtype="int32")


def places(rng, shape):
    return np.stack([rng.uniform(-80, 80, shape), rng.uniform(-170, 170, shape), rng.uniform(6500, 6900, shape)], -1)


def sh(kind, rng):
    nm = terms(2)
    if kind == "constant":
        return mc.SparseSHCoefficientsConstant(nm, rng.uniform(-9, 9, len(nm)), validity_start=0.0, validity_end=9000.0)
    if kind == "series":
        return mc.SparseSHCoefficientsTimeDependent(nm, rng.uniform(-9, 9, (len(nm), 3)), [0.0, 4000.0, 9000.0])
    if kind == "composed":
        return mc.ComposedSHCoefficients(sh("constant", rng), mc.SparseSHCoefficientsTimeDependent(
            nm, rng.uniform(-9, 9, (len(nm), 2)), [9000.0, 12000.0]))
    if kind == "combined":
        return mc.CombinedSHCoefficients(sh("series", rng), mc.SparseSHCoefficientsConstant(
            np.array([[3, 1]]), rng.uniform(-9, 9, 1)))
    if kind == "mio":
        return SparseSHCoefficientsMIO(nm, rng.uniform(-9, 9, (len(nm), 3, 3, 2)), ps_extent=(-1, 1, -1, 1), is_internal=True)
    raise KeyError(kind)


def model(kind, rng):
    if kind == "dipole":
        return DipoleSphericalHarmomicGeomagneticModel(sh("series", rng), POLE)
    if kind == "primary":
        return MIOPrimaryGeomagneticModel(model("mio", rng), model("mio", rng))
    if kind == "mio":
        return DipoleMIOGeomagneticModel(sh("mio", rng), POLE)
    if kind == "sum":
        item = ComposedGeomagneticModel(model("dipole", rng))
        item.push(model("series", rng), 0.5)
        return item
    return SphericalHarmomicGeomagneticModel(sh(kind, rng))


def files(folder):
    """ files used by the calls """
    path = os.path.join(folder, "good.shc")
    with open(path, "w") as out:
        out.write(SHC)
    good = {"size": [1, 1], "epochs": [2010, 2020],
            "mats": [[[[3, 1, -2, 100], [2, 5, 1, -50], [1, 1, 7, 10]]], [[[4, 1, -1, 90], [2, 6, 1, -40], [1, 2, 7, 20]]]]}
    for k, name in enumerate(("a.dat", "b.dat")):
        if k:
            good["mats"][0][0][0][0] += 5
            good["mats"][1][0][1][1] -= 3
        qd.write(os.path.join(folder, name), good)
    for why in ("missing", "folder", "empty", "short", "header"):
        qd.corrupt(os.path.join(folder, "qd-" + why), why, good)
    os.makedirs(os.path.join(folder, "folder"), exist_ok=True)
    open(os.path.join(folder, "empty"), "w").close()
    with open(os.path.join(folder, "garbage"), "wb") as out:
        out.write(bytes(random.Random(1).randrange(256) for _ in range(4000)))
    with open(os.path.join(folder, "words"), "w") as out:
        out.write("these are not the data\nbut 5 lines 7.0 of\ttext\n\n1 0\n")


FOLDER = None


def folder():
    """ folder with the files, private to this process """
    global FOLDER
    if FOLDER is None:
        FOLDER = tempfile.mkdtemp(prefix="faults")
        files(FOLDER)
    return FOLDER


def made(cls, *args):
    """ coefficients are made and evaluated """
    def make(*params, **kwargs):
        item = cls(*params, **kwargs)
        return item(5.0, *args), item.degree, item.min_degree
    return make


def entry(name, rng, shape):
    """ function and its parameters with correct values """
    uni = rng.uniform
    def values(low, high, tail=()):
        return uni(low, high, (*shape, *tail))
    line = shape[:1]
    def qdline(low, high):
        return uni(low, high, line)
    evals = [("coord_type_in", 1), ("coord_type_out", 2), ("mode", 3), ("is_internal", True)]
    scales = [("scale_potential", 2.0), ("scale_gradient", np.array([1.0, 2.0, 3.0]))]
    series = [(np.array([0.0, 10, 20, 30]), uni(-9, 9, (8, 4)), terms(2), 2),
              (np.array([-5.0, 40]), uni(-9, 9, (7, 2)), terms(3)[8:], 2)]
    if name == "bisect":
        return _pymm.bisect, [("v", np.array([0.0, 10, 20, 30])), ("x", values(-5, 35)), ("side", 0)]
    if name == "interp":
        return _pymm.interp, [("time", values(0, 30)), ("time0", np.array([0.0, 10, 20, 30])), ("coeff0", uni(-9, 9, (5, 4))),
                              ("kind", _pymm.INTERP_C1), ("extrapolate", True)]
    if name == "fourier2d":
        return _pymm.fourier2d, [("time1", values(0, 1)), ("time2", values(0, 1)), ("coeff", uni(-9, 9, (5, 3, 3, 2))),
                                 ("min_degree1", -1), ("min_degree2", -1), ("scale1", 1.0), ("scale2", 2.0)]
    if name == "legendre":
        return E.legendre, [("latitude", values(-80, 80)), ("degree", 3)]
    if name == "loncossin":
        return E.loncossin, [("longitude", values(-80, 80)), ("degree", 3), ("fast_alg", 1)]
    if name == "relradpow":
        return E.relradpow, [("radius", values(6400, 6900)), ("degree", 3), ("reference_radius", 6371.2), ("is_internal", True)]
    if name == "spharpot":
        return E.spharpot, [("radius", values(6400, 6900)), ("coef", matrix(rng, 3)), ("leg_p", values(-1, 1, (10,))),
                            ("rpp", values(0, 1, (4,))), ("lcs", values(-1, 1, (4, 2))), ("degree", -1)]
    if name == "sphargrd":
        return E.sphargrd, [("latitude", values(-80, 80)), ("coef", matrix(rng, 3)), ("leg_p", values(-1, 1, (10,))),
                            ("leg_dp", values(-1, 1, (10,))), ("rrp", values(0, 1, (4,))), ("lcs", values(-1, 1, (4, 2))),
                            ("is_internal", True), ("degree", -1)]
    if name == "sheval":
        return E.sheval, [("arr_x", places(rng, shape)), ("coef", matrix(rng, 3)), *evals, ("degree", -1), *scales]
    if name == "shevaltemp":
        return _pymm.shevaltemp, [("arr_t", values(0, 30)), ("arr_x", places(rng, shape)), ("coef_set_list", series), *evals, *scales]
    if name == "sheval2dfs":
        return _pymm.sheval2dfs, [("arr_t1", values(0, 1)), ("arr_t2", values(0, 1)), ("arr_x", places(rng, shape)),
                                  ("coef_set", (uni(-9, 9, (8, 3, 3, 2)), terms(2), -1, -1, 1.0, 1.0)), *evals, *scales]
    if name == "convert":
        return E.convert, [("arr_in", places(rng, shape)), ("coord_type_in", 1), ("coord_type_out", 2)]
    if name in ("vrot_sph2cart", "vrot_cart2sph"):
        return getattr(E, name), [("arr_in", values(-9, 9, (3,))), ("arr_lat", values(-80, 80)), ("arr_lon", values(-170, 170))]
    if name == "vrot_sph2geod":
        return E.vrot_sph2geod, [("arr_in", values(-9, 9, (3,))), ("arr_dlat", values(-1, 1))]
    if name in ("sunpos", "sunpos_original"):
        return getattr(E, name), [("time_mjd2k", values(100, 9000)), ("lat", values(-80, 80)), ("lon", values(-170, 170)),
                                  ("rad", values(6400, 6900)), ("dtt", values(0, 100))]
    if name in ("eval_qdlatlon", "eval_qdlatlon_with_base_vectors"):
        return getattr(E, name), [("gclat", qdline(-80, 80)), ("gclon", qdline(-170, 170)), ("gcrad", qdline(6400, 6900)),
                                  ("time", qdline(2011, 2019)), ("fname", os.path.join(folder(), "a.dat"))]
    if name == "eval_mlt":
        return E.eval_mlt, [("qdlon", qdline(-170, 170)), ("time", qdline(0, 9000))]
    if name == "eval_subsol":
        return E.eval_subsol, [("time", qdline(0, 9000))]
    if name in ("mjd2000_to_decimal_year", "mjd2000_to_year_fraction"):
        return getattr(E, name), [("time_mjd2k", values(0, 9000))]
    if name == "decimal_year_to_mjd2000":
        return E.decimal_year_to_mjd2000, [("time_mjd2k", values(2000, 2030))]
    if name == "vnorm":
        return E.vnorm, [("arr", values(-9, 9, (3,)))]
    if name == "vincdecnorm":
        return E.vincdecnorm, [("arr", values(-9, 9, (3,)))]
    if name == "vrotate":
        return E.vrotate, [("arr", values(-9, 9, (3,))), ("coord_in", places(rng, shape)), ("coord_out", values(6400, 6900, (3,))),
                           ("coord_type_in", 1), ("coord_type_out", 2)]
    if name == "convert_to_dipole":
        return E.convert_to_dipole, [("coords", places(rng, shape)), ("lat_ngp", 80.0), ("lon_ngp", -72.0), ("coord_type_in", 1)]
    if name == "vrot_from_dipole":
        return E.vrot_from_dipole, [("vectors", values(-9, 9, (3,))), ("lat_ngp", 80.0), ("lon_ngp", -72.0),
                                    ("lat_dipole", values(-80, 80)), ("lon_dipole", values(-170, 170)),
                                    ("lat_out", values(-80, 80)), ("lon_out", values(-170, 170)), ("coord_type_out", 1)]
    if name == "get_dipole_rotation_matrix":
        return E.get_dipole_rotation_matrix, [("latitude", 80.0), ("longitude", -72.0)]
    if name == "mjd2000_to_magnetic_universal_time":
        return E.mjd2000_to_magnetic_universal_time, [("mjd2000", values(0, 9000)), ("lat_ngp", 80.0), ("lon_ngp", -72.0)]
    if name == "sheval_dipole":
        return E.sheval_dipole, [("arr_in", places(rng, shape)), ("coef", matrix(rng, 3)), ("lat_ngp", 80.0), ("lon_ngp", -72.0),
                                 ("coord_type_in", 1), ("coord_type_out", 2), ("mode", 3)]
    if name.startswith("eval_"):
        item = model(name[5:], rng)
        extra = [("f107", 100.0)] if name[5:] in ("primary", "mio") else []
        if name[5:] == "primary":
            extra = [("f107", 100.0)]
        return item.eval, [("time", values(100, 8900)), ("location", places(rng, shape)),
                           ("input_coordinate_system", 1), ("output_coordinate_system", 2), ("scale", 2.0), *extra]
    if name.startswith("call_"):
        item = sh(name[5:], rng)
        extra = [("mut", uni(0, 24, shape))] if name == "call_mio" else []
        return item, [("time", values(100, 8900)), *extra, ("max_degree", 2), ("min_degree", 1)]
    if name == "trace_field_line":
        return E.trace_field_line, [("model", model("constant", rng)), ("time", 1000.0), ("point", np.array([30.0, 20.0, 6900.0])),
                                    ("input_coordinate_system", 1), ("output_coordinate_system", 2), ("trace_options", {"max_steps": 5})]
    if name == "new_constant":
        return made(mc.SparseSHCoefficientsConstant), [("indices", terms(2)), ("coefficients", uni(-9, 9, 8))]
    if name == "new_series":
        return made(mc.SparseSHCoefficientsTimeDependent), [("indices", terms(2)), ("coefficients", uni(-9, 9, (8, 3))),
                                                            ("times", np.array([0.0, 10.0, 20.0])), ("spline_order", 2)]
    if name == "new_mio":
        return made(SparseSHCoefficientsMIO, 5.0), [("indices", terms(2)), ("coefficients", uni(-9, 9, (8, 3, 3, 2))),
                                                    ("ps_extent", (-1, 1, -1, 1))]
    if name in ("new_composed", "new_combined"):
        return {"new_composed": mc.ComposedSHCoefficients, "new_combined": mc.CombinedSHCoefficients}[name], [
            ("one", sh("constant", rng)), ("two", sh("series", rng))]
    if name == "new_model":
        return SphericalHarmomicGeomagneticModel, [("coefficients", sh("series", rng))]
    if name in LOADERS:
        func, path = LOADERS[name]
        return func, [("path", path if os.path.isabs(path) else os.path.join(folder(), path))]
    raise KeyError(name)


def _test(name):
    return os.path.join(TESTS, name)


def _loaders():
    names = sorted(os.listdir(TESTS))
    def find(*parts):
        found = [n for n in names if all(p in n for p in parts)]
        return _test(found[0]) if found else None
    table = {
        "load_coeff_shc": (loader_shc.load_coeff_shc, "good.shc"),
        "load_model_shc": (E.load_model_shc, "good.shc"),
        "load_model_shc_combined": (E.load_model_shc_combined, "good.shc"),
        "load_model_igrf": (E.load_model_igrf, data.IGRF11),
        "load_model_wmm": (E.load_model_wmm, data.WMM_2015),
        "load_model_swarm_mio_internal": (E.load_model_swarm_mio_internal, find("MIO_SHA")),
        "load_model_swarm_mio_external": (E.load_model_swarm_mio_external, find("MIO_SHA")),
        "load_model_swarm_mma_2c_internal": (E.load_model_swarm_mma_2c_internal, find("MMA_SHA_2C")),
        "load_model_swarm_mma_2f_geo_external": (E.load_model_swarm_mma_2f_geo_external, find("MMA_SHA_2F")),
    }
    return {k: v for k, v in table.items() if v[1]}


LOADERS = _loaders()


# ----------------------------------------------------------------------------
# faults

def spoil(fault, value, shape, which=0):
    """ faulty value replacing the correct one, which selects the spoiled one of more items """
    simple = {
        "none": lambda: None, "text": lambda: "abc", "number": lambda: 1.5, "object": Thing, "refuser": Refuser, "liar": Liar,
        "ragged": lambda: [[1.0, 2.0], [3.0]], "complex": lambda: 1 + 2j, "list": lambda: [1.0], "empty": lambda: [],
        "float": lambda: 1.5, "huge": lambda: 2**40, "wrapped": lambda: 2**32 + 1, "hugest": lambda: 2**80, "negative": lambda: -7, "far": lambda: 77,
        "nan": lambda: float("nan"), "zero": lambda: 0.0, "minus": lambda: -1.0, "iterator": lambda: iter([1.0, 2.0]),
        "dictionary": lambda: {"a": 1}, "pair": lambda: (1, 2), "numbers": lambda: [1, 2],
        "missing": lambda: os.path.join(folder(), "nothing"), "nul": lambda: "a\0b",
        "long": lambda: "x"*5000, "bytes": lambda: b"abc", "infinite": lambda: float("inf"),
    }
    if fault in simple:
        return simple[fault]()
    if fault in ("folder", "void", "garbage", "words", "qd-short", "qd-header", "qd-folder"):
        return os.path.join(folder(), {"void": "empty"}.get(fault, fault))
    if fault == "loop":
        item = []
        item.append(item)
        return item
    if fault.startswith("item"):
        return spoil_item(int(fault[4]), fault[5:], value, which)
    if fault == "lonely":           # spline of a single node
        time, values, indices, order = value[which % len(value)]
        return [(time[:1], values[:, :1], indices, order)] + list(value)
    if fault == "many":
        return [value[0]]*17
    arr = np.asarray(value)
    if fault == "cplxarr":
        return arr.astype("complex128")
    if fault == "textarr":
        return np.full(arr.shape, "abc")
    if fault == "objarr":
        return np.full(arr.shape, Thing())
    if fault == "datetime":
        return np.full(arr.shape, 5).astype("datetime64[s]")
    if fault == "record":
        return np.zeros(arr.shape, dtype=[("a", "f8"), ("b", "f8")])
    if fault == "scalar":
        return 1.0
    if fault == "last1":
        return arr[..., :1]
    if fault == "last2":
        return arr[..., :2]
    if fault == "last4":
        return np.concatenate([arr, arr[..., :1]], -1)
    if fault == "vanish":
        return arr[..., :0]
    if fault == "first":            # fewer items along the first axis
        return arr[:-1]
    if fault == "wider":            # more items along the second axis
        return np.concatenate([arr, arr[:, :1]], 1)
    if fault == "prefix":           # missing the last dimension
        return arr[:, 0].copy()
    if fault == "fewer":
        return arr[..., 0]
    if fault == "deeper":
        return arr[None, ...]
    if fault == "deepest":
        return np.array(1.0).reshape((1,)*64)
    if fault == "clash":
        tail = arr.shape[len(shape):]
        return np.ones((shape[0] + 3, *shape[1:], *tail)) if shape else np.ones((7, *tail))
    if fault == "negdegree":
        arr = arr.copy()
        arr[0, 0] = -3
        return arr
    if fault == "mindegree":
        arr = arr.copy()
        arr[-1, 0] = -2**31
        return arr
    if fault == "bigdegree":
        arr = arr.copy()
        arr[0, 0] = 65536
        return arr
    if fault == "orderabove":
        arr = arr.copy()
        arr[-1, 1] = 1000
        return arr
    if fault == "minorder":
        arr = arr.copy()
        arr[-1, 1] = -2**31
        return arr
    if fault == "orderbelow":
        arr = arr.copy()
        arr[0, 1] = -arr[0, 0] - 1
        return arr
    raise KeyError(fault)


def spoil_item(index, fault, value, which):
    """ faulty item of a tuple (of one of a list of tuples) """
    tuples = list(value) if isinstance(value, list) else [value]
    item = list(tuples[which % len(tuples)])
    item[index] = spoil(fault, item[index], ())
    tuples[which % len(tuples)] = tuple(item)
    return tuples if isinstance(value, list) else tuples[0]


def arguments(call):
    """ function, positional and keyword arguments and their correct values """
    rng = np.random.RandomState(call.get("seed", 0))
    shape = tuple(call.get("shape", ()))
    func, params = entry(call["func"], rng, shape)
    if call.get("file") and params[-1][0] == "fname":
        params[-1] = ("fname", os.path.join(folder(), call["file"]))
    faults = dict(call.get("faults", ()))
    unknown = set(faults) - {n for n, _ in params}
    if unknown:
        raise KeyError("%s: %s" % (call["func"], unknown))
    params = [(n, spoil(faults[n], v, shape, call.get("seed", 0)) if n in faults else v) for n, v in params]
    return func, params


def assemble(call, params):
    """ arguments of the call """
    form = call.get("form", "mixed")
    count = len(params)
    if call["func"] in MODELS:
        count = 4
    elif call["func"].startswith("call_"):
        count = 2 if call["func"] == "call_mio" else 1
    args = [v for _, v in params[:count]]
    kwargs = dict(params[count:])
    if form == "named" and not call["func"].startswith(("new_com", "load_")):
        args, kwargs = [], dict(params)
    if form == "none":
        args, kwargs = [], {}
    if form == "excess":
        args = args + [1.0]*40
    if form == "unknown":
        kwargs["no_such_parameter"] = 1
    if form == "twice":
        kwargs[params[0][0]] = params[0][1]
    return args, kwargs


MODELS = ("eval_constant", "eval_series", "eval_composed", "eval_combined", "eval_dipole", "eval_sum", "eval_mio", "eval_primary")


def nans(value):
    if isinstance(value, (tuple, list)):
        return any(nans(v) for v in value)
    try:
        arr = np.asarray(value)
    except Exception:
        return False
    return bool(arr.dtype.kind == "f" and np.isnan(arr).any())


def digest(value, out=None):
    top = out is None
    out = out or hashlib.sha1()
    if isinstance(value, (tuple, list)):
        out.update(b"(%d" % len(value))
        for item in value:
            digest(item, out)
    elif isinstance(value, (mc.SHCoefficients,)):
        digest([value.validity, value.degree, value.is_internal, dump(value)], out)
    elif hasattr(value, "coefficients") and hasattr(value, "eval"):
        digest(value.coefficients, out)
    elif hasattr(value, "eval"):
        digest([value.validity, repr(value.parameters)], out)
    elif isinstance(value, (str, bool)) or value is None:
        out.update(repr(value).encode())
    else:
        try:
            arr = np.asarray(value)
        except Exception:
            arr = np.array("not an array")
        out.update(repr((arr.shape, str(arr.dtype))).encode())
        out.update(np.ascontiguousarray(arr).tobytes() if arr.dtype != object else repr(value).encode())
    return out.hexdigest()[:12] if top else None


def dump(coeff):
    if hasattr(coeff, "__iter__"):
        return [digest(c) for c in coeff]
    names = ("_nm", "_gh", "_times", "_coeff", "_degree", "_min_degree", "ps_extent")
    return [digest(getattr(coeff, n)) for n in names if hasattr(coeff, n)]


# ----------------------------------------------------------------------------
# resources

class MallInfo(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in (
        "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = MallInfo


def used():
    info = LIBC.mallinfo2()
    return sys.getallocatedblocks(), info.uordblks + info.hblkhd, len(os.listdir("/proc/self/fd"))


def calibrate():
    """ the accounting must see memory which is not released """
    LIBC.malloc.restype = ctypes.c_void_p
    LIBC.free.argtypes = (ctypes.c_void_p,)
    start = used()[1]
    block = LIBC.malloc(ctypes.c_size_t(100000))
    seen = used()[1] - start
    LIBC.free(block)
    if not 100000 <= seen < 200000:
        raise RuntimeError("no accounting of the memory")


def counters(objs):
    return [sys.getrefcount(o) for o in objs]


# NumPy itself loses references of its types (e.g., of f8 by zeros), only their overuse counts
DTYPES = 7
SHARED = [np.dtype(t) for t in ("f8", "i4", "i8", "f4", "c16", "O", "?")] + [
    np.ndarray, np.float64, ValueError, TypeError, E, _pymm, mc, Thing, E.convert]


def repeat(call, rounds, count):
    """ resources used by repeated calls """
    func, params = arguments(call)
    args, kwargs = assemble(call, params)
    flat = list(args) + list(kwargs.values())
    for item in list(flat):
        if isinstance(item, (tuple, list)):
            flat += [x for x in item if x is not item]
            for sub in item:
                if isinstance(sub, tuple):
                    flat += list(sub)
    flat = [x for x in flat if not isinstance(x, (int, bool, type(None)))]
    item = sub = None

    def many(count):
        for _ in range(count):
            try:
                func(*args, **kwargs)
            except Exception:
                pass

    def gain(count):
        gc.collect()
        start, refs0, shared0 = used(), counters(flat), counters(SHARED)
        many(count)
        gc.collect()
        refs1, shared1, end = counters(flat), counters(SHARED), used()
        return (end[0] - start[0], end[1] - start[1], end[2] - start[2],
                max([abs(a - b) for a, b in zip(refs0, refs1)] + [0]),
                max(a - b if k < DTYPES else abs(a - b) for k, (a, b) in enumerate(zip(shared0, shared1))))

    calibrate()
    # what the additional calls of the longer round gain, the measurement has its own resources
    # a suspected leak is measured again with more calls, it grows with their number and the noise does not
    many(4)
    gc.collect()
    gc.freeze()
    gain(1)
    for scale in (1, 4, 16, 64):
        best = None
        for _ in range(rounds):
            short, long = gain(scale*count), gain(3*scale*count)
            diff = [b - a for a, b in zip(short, long)]
            best = diff if best is None else [min(a, b) for a, b in zip(best, diff)]
        if max(best[0], best[1]//48, *best[2:]) < scale*count:
            break
    return dict(zip(("blocks", "bytes", "handles", "refs", "shared"), best), count=2*scale*count)


def inside(item):
    """ the scenario in its own process """
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    if item["ev"] == "repeat":
        return {"repeat": repeat(item["call"], item["rounds"], item["count"])}
    lines = []
    for call in item["calls"]:
        func, params = arguments(call)
        before = digest([v for _, v in params if isinstance(v, np.ndarray) and v.dtype.kind != "O"])
        args, kwargs = assemble(call, params)
        try:
            result = func(*args, **kwargs)
        except SystemError as error:
            obs = {"out": "disorder", "digest": "", "nan": 0, "error": repr(error)[:80]}
        except Exception as error:
            obs = {"out": "refused", "digest": "", "nan": 0, "error": type(error).__name__}
        else:
            obs = {"out": "value", "digest": digest(result), "nan": int(nans(result)), "error": ""}
        after = digest([v for _, v in params if isinstance(v, np.ndarray) and v.dtype.kind != "O"])
        obs["touched"] = int(before != after)
        lines.append(obs)
    return {"lines": lines}


def execute(item):
    folder()
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(PER_SCENARIO)
            os.close(rfd)
            text = json.dumps(inside(item)).encode()
            while text:
                text = text[os.write(wfd, text):]
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 98
        os._exit(code)
    os.close(wfd)
    chunks = []
    while True:
        chunk = os.read(rfd, 1 << 16)
        if not chunk:
            break
        chunks.append(chunk)
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 98:
        raise RuntimeError("harness failed")
    if status:
        return {"crash": "signal %d" % os.WTERMSIG(status) if os.WIFSIGNALED(status) else "exit %d" % os.WEXITSTATUS(status)}
    return json.loads(b"".join(chunks))
